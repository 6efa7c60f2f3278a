#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (source of truth for the property texts)."""
import json,os
P=[]
def prop(id,title,statement,over,quant,why,files,mech,observe=None):
    P.append(dict(id=id,title=title,statement=statement,
      quantifier=dict(over=over,text=quant),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],
                   observe_at=observe or [],hook_needed=None)))
TF='TestingFramework/'; FU='FileUtilities/'; IT='itktf/'
B64=[TF+'tfBase64.h',TF+'tfBase64.cpp']
MEAS=[TF+'tfMeasurement.h',TF+'tfMeasurement.cpp']
RT=[TF+'tfRegressionTest.h',TF+'tfRegressionTest.cpp']
VIS=[TF+'tfMeasurementVisitor.h',TF+'tfMeasurementVisitor.cpp']
DIFF=[TF+'tfDiff.h',TF+'tfDiff.cpp']
PN=[FU+'PathName.h',FU+'PathName.cpp']

prop('C01','Base64 encode then decode is the identity',
 'For every byte sequence and every combination of the line-break and ignore-invalid options, decoding the encoded text gives back exactly the original bytes. Decoding reports exactly the original byte count and writes nothing beyond it, and the validity check reports that same count.',
 ['inputs','configurations'],'every byte string (all lengths, all byte values) and every option setting',
 'No existing test calls the encoder or decoder at all; padding, high-bit bytes and line-break positions are rare points of an unbounded input space.',
 B64,[('encoder','Base64::Encode'),('decoder','Base64::Decode'),('validity check','Base64::IsBase64')],['return values','output buffer bounds'])
prop('C02','Base64 output is in canonical RFC 2045 form',
 'For every byte sequence the encoded text is the RFC 2045 encoding: standard alphabet, most significant bit first, "=" padding completing the last group of four. With line breaks on, a single newline follows every 72 characters of output except at the very end; with them off there are none; no other character ever appears.',
 ['inputs','configurations'],'every byte string and both line-break settings',
 'No test encodes anything; the break positions depend on the length modulo 54 and only show for inputs longer than one line.',
 B64,[('encoder','Base64::Encode'),('alphabet table','Base64::base64chars')],['returned text'])
prop('C03','Base64 validation and decoding agree on every text',
 'For every text and option setting the decoder accepts exactly the valid encodings (complete groups of four, padding only at the end of the last group as one or two "=", white space ignored, text after the padding not examined), and other characters are rejected unless ignoring invalid characters is on. When it accepts, it writes and reports exactly as many bytes as the validity check announces; when it rejects it throws and the validity check reports 0. No text makes either read or write out of bounds.',
 ['inputs','configurations'],'every text over all 256 character values and both ignore-invalid settings',
 'Malformed, truncated, high-bit and oddly padded texts are never tried by the tests.',
 B64,[('decoder','Base64::Decode'),('validity check','Base64::IsBase64'),('inverse table','Base64::base64bits')],['exceptions','return values','output buffer bounds'])
prop('C04','A line difference turns the old text into the new one',
 'For every pair of texts the printed change commands, applied to the first text, produce the second text: their 1-based line ranges are correct and in increasing order, and the "<" and ">" lines quote the actual lines. Computing the difference always terminates and never reads outside its data.',
 ['inputs'],'every pair of texts (any number of lines, any line contents without NUL)',
 'The tests difference one fixed pair of two-line texts and do not check the script.',
 DIFF,[('edit script search','Diff'),('script printing','Diff')],['text written to the output stream'])
prop('C05','A line difference is minimal, and empty only for equal texts',
 'For every pair of texts the number of deleted plus inserted lines is the smallest possible, i.e. it leaves a longest common subsequence of lines untouched. Nothing is printed exactly when the two texts are equal.',
 ['inputs'],'every pair of texts',
 'Minimality quantifies over all edit scripts of all pairs; the tests look at one pair and never count.',
 DIFF,[('shortest edit script (Myers)','Diff'),('line identity','Diff')],['text written to the output stream'])
prop('C06','A printed measurement is well-formed XML that reads back unchanged',
 'For every measurement kind, name, attribute values and content made of printable characters (content may also hold tabs and newlines), the printed form is one well-formed XML element, carrying exactly the attributes that apply. A conforming XML parser reads back the same name, type, encoding, compression and content.',
 ['inputs'],'every name, encoding and content, over all printable characters including the XML specials',
 'The tests print a handful of fixed harmless names and contents; markup characters in names are never tried.',
 MEAS,[('element printing','Measurement::Print'),('escaping','Measurement::ApplyEscapeSequences')],['printed text'])
prop('C07','Recording a run and replaying it reports no mismatch',
 'For every sequence of measurements a test makes (any kinds, names and values), running once to record the output file and then running the same test against that file reports every measurement as matching and returns success. This holds for all text contents of printable characters, tabs and newlines, all integers, booleans, and all finite floating-point values with the default tolerance.',
 ['inputs','histories'],'every sequence of measurement calls and every name and value',
 'The tests replay six hand-picked values; the property ranges over all values and sequences and crosses printing, parsing and comparison.',
 RT+MEAS+VIS,[('recording','RegressionTest::Measurement*'),('reading','RegressionTest::ReadXMLInput'),('comparison','RegressionTest::CompareMeasurement')],['Main return value','output file'])
prop('C08','Compare mode counts exactly the measurements that do not match',
 'When a test that returns its expected value is compared against a baseline, the run returns the number of measurements it made whose baseline counterpart, taken by position, is missing or differs in name, type or value. A mismatch at one position does not shift or affect the verdict at any other, and every measurement call itself reports 1 for a match and 0 for a value difference.',
 ['inputs','histories'],'every baseline sequence and every sequence of measurements made against it',
 'Tests cover all-match and all-differ runs of one fixed sequence; mixed sequences, surplus and missing entries are not covered.',
 RT+VIS,[('baseline queue','RegressionTest::CompareMeasurement'),('counting','RegressionTest::DifferenceMeasurement, UnmatchedMeasurement')],['Main return value','measurement call return values'])
prop('C09','Tolerant numeric comparison is the documented relation',
 'For all finite numbers u and v of the measurement type and every tolerance e, a tolerant comparison holds exactly when |u-v| <= |e|*|u| or |u-v| <= |e|*|v| or both magnitudes are below the type\'s epsilon. It is therefore symmetric, reflexive and monotone in e, and numbers of different measurement types never compare equal.',
 ['inputs','configurations'],'all pairs of values of each numeric type and all tolerances',
 'The tests use one value pair per type with the default tolerance; boundary, sign, overflow and subnormal cases are unreachable by samples.',
 MEAS+VIS,[('tolerant comparison','NumericData::IsEqualTolerant'),('tolerance selection','CompareVisitor::Visit(NumericData&)')],['IsEqualTolerant result','CompareVisitor result'])
prop('C10','Integer and boolean measurements are exact',
 'Every integer that can be passed to a measurement is recorded as its exact decimal value and reads back as the same number, over the full range of the parameter type, and two different integers never compare equal without tolerance. The same holds for both booleans.',
 ['inputs'],'all 2^64 long values and both booleans',
 'The tests record only the values 0 and 1.',
 MEAS+RT,[('integer content','IntegerNumeric::SetValue, GetValue'),('recording','RegressionTest::MeasurementNumericInteger')],['content text','output file','comparison result'])
prop('C11','Framework options are consumed exactly, in any argument vector',
 'For every argument vector, the leading options -I, -O, -R and -P with their values (in any order and number) are consumed and take effect (for a repeated option the last value counts, and later search paths are searched first), and the test receives the program name followed by all remaining arguments unchanged and in order. Processing stops at the first argument that is not a complete option, always terminates, and an unreadable input file or search path is an error while an unwritable existing output file is ignored with a warning.',
 ['inputs'],'every argument vector',
 'Eight fixed command lines are tried; option order, repetition and truncated vectors are not.',
 RT,[('option parsing','RegressionTest::ParseAndRemoveArguments')],['argc/argv seen by the test','effective file names, expected return, search path'])
prop('C12','A failed run never reports success',
 'Main returns 0 only if no exception escaped set-up, the test or tear-down, and the test returned either the expected value with no mismatched measurement, or a different value that is itself 0. When the test returns an unexpected value that value is returned, and when anything throws a non-zero value is returned whatever value is expected and in either mode.',
 ['inputs','fault_sequences'],'every test return value, expected value, mode, number of mismatches and exception kind at every stage',
 'Tests exercise normal completion only; no test throws or has unreadable files.',
 RT,[('run driver','RegressionTest::Main')],['Main return value'])
prop('C13','Any baseline document is read faithfully or rejected, never crashes',
 'For every byte sequence given as baseline, reading it either fails with an error that makes the run report failure, or yields one measurement per measurement element directly under the document element, in document order, with exactly the given name, type, encoding and character content (an absent or unknown type is read as plain text). Unknown, nested or attribute-less elements never crash the run, hang it, or leak into the content or attributes of other measurements.',
 ['inputs'],'every baseline document, well-formed or not',
 'Tests read a dozen well-formed files written by the framework itself.',
 RT+MEAS,[('XML callbacks','RegressionTest::ReadXMLInput, start/end/data')],['measurements available for comparison','Main return value'])
prop('C14','A baseline file is read completely whatever its size',
 'For every file size, the whole of the baseline file, and nothing else, reaches the XML parser, in order, including sizes at, just below and just above any internal buffer boundary.',
 ['inputs'],'every file size',
 'The baseline files of the tests have a few fixed sizes, none at a buffer boundary.',
 RT,[('chunked reading','RegressionTest::ReadXMLInput')],['bytes handed to the XML parser','measurements read'])
prop('C15','File measurements are equal exactly when the files hold the same bytes',
 'Two file measurements of the same name and type compare equal exactly when both files can be read and their contents are byte-for-byte identical, for text and binary types and every content including empty files, NUL bytes and every size. A missing or unreadable file never compares equal to anything.',
 ['inputs','fault_sequences'],'every pair of file contents and every missing or unreadable combination',
 'One test compares one text file with itself.',
 MEAS,[('file loading','MeasurementFile::Load'),('comparison','MeasurementFile::IsEqual')],['comparison result'])
prop('C16','Content and data views of a measurement stay coherent',
 'After every history of setting content, data, encoding or name, copying and assigning, the data view is the content decoded by the current encoding, and setting data makes that data readable back unchanged through both the data view and the (encoded) content. Copies and assignments are independent of their source, and every history is free of leaks, double frees and stale reads.',
 ['histories','inputs'],'every sequence of setter, getter, copy and assignment calls, every content',
 'The tests never use the data view, encodings, copies or assignments.',
 MEAS,[('cached data view','DataMeasurement::GetContentAsData, SetContentAsData'),('copying','DataMeasurement::operator=')],['returned content, data and size','heap state'])
prop('C17','Path decomposition and joining obey the path laws',
 'For every path: the last component is the text after the last separator, the extension is the text after the last period of the last component, and the directory part names all but the last component ("." for a single component, the root for a file directly under the root), so that joining the directory part and the last component names the same file. Joining replaces the left side when the right side is absolute or the left empty, and otherwise puts exactly one separator between the left side without its trailing separators and the right side.',
 ['inputs'],'every path string',
 'No test checks path operations; separators at the ends, doubled separators and empty strings are never tried.',
 PN,[('joining','PathName::Append'),('decomposition','PathName::DirectoryName, Tail, Extension'),('classification','PathName::GetPathType')],['returned paths'])
prop('C18','Search-path lookup returns the first match or nothing',
 'For every search list and file system, looking a path up returns the join of the first list entry under which it names a regular file, and the empty path if there is none. Directories and other non-regular files are skipped, and baseline files are therefore taken from the first matching directory.',
 ['inputs','configurations'],'every search list and every file system state',
 'Tests use a single directory that does contain the file.',
 PN+RT,[('lookup','PathName::SearchPathList')],['returned path'])
prop('C19','Colon-separated path lists split exactly',
 'For every string, splitting it gives exactly the pieces between its colons, in order and including empty ones, and the empty string gives no piece, so re-joining the pieces with colons gives the string back. Reading a list from an environment variable gives the split of its value, and nothing if it is not set.',
 ['inputs'],'every string and environment value',
 'No test splits a path list.',
 [FU+'FileUtilities.h',FU+'FileUtilities.cpp'],[('splitting','GetPathListFromColonSeparatedList')],['returned list'])
prop('C20','Visiting dispatches to the most specific overridden handler',
 'For every concrete measurement type and every set of handlers a visitor overrides, visiting calls exactly one overridden handler, the most specific one along the type\'s class hierarchy, with the same object, and none if no handler for its hierarchy is overridden.',
 ['configurations'],'every measurement type and every subset of overridden handlers (2^11)',
 'The tests only use the two built-in visitors.',
 VIS+MEAS,[('double dispatch','Measurement::AcceptVisitor, MeasurementVisitor::Visit')],['handler invocations'])
prop('C21','The image difference filter computes its specification',
 'For every pair of images, threshold and radius, a pixel counts as different exactly when no test pixel within the radius (edge pixels replicated, or boundary pixels skipped when so configured) is within the threshold of the baseline pixel (the difference of equal pixels, also infinite ones or two that are not numbers, is zero). The output holds the smallest difference there and zero elsewhere, the statistics are the count, sum and mean of these magnitudes, and the result does not depend on how the region is divided among threads.',
 ['inputs','schedules','configurations'],'every pair of images, threshold, radius, region partition',
 'The filter test is compiled but not among the passing tests; no stable test runs the filter.',
 [IT+'itktfDifferenceImageFilter.h',IT+'itktfDifferenceImageFilter.txx'],[('per-region work','DifferenceImageFilter::ThreadedGenerateData'),('reduction','AfterThreadedGenerateData')],['output image','statistics'])
prop('C22','Image comparison decides by size, geometry and tolerances',
 'Two image files compare equal exactly when both can be read, their sizes, spacings and origins are equal, and the number of differing pixels under the intensity and radius tolerances does not exceed the pixel-count tolerance. The programmatic comparison returns how far the number of differing pixels exceeds that tolerance (0 if it does not), the largest value for different sizes, and with a region given considers that region only.',
 ['inputs','configurations'],'every pair of images and tolerances',
 'Image comparison tests are not among the passing tests.',
 [IT+'itktfCompareVisitor.cxx',IT+'itktfRegression.h'],[('decision','CompareVisitor::RegressionTestImage'),('counting','Regression::CompareImage')],['comparison result','returned count'])
prop('C23','Geometry measurements record every component once, in order',
 'Measuring a size, index, region, point, vector, array or matrix records exactly one measurement per component, in order, named by the given name and the component\'s position, and holding that component\'s value; comparing against a baseline differing in any one component reports exactly one mismatch.',
 ['inputs'],'every value of every component, every name',
 'One test records one fixed 2-D region.',
 [IT+'itktfRegression.h'],[('component loops','Regression::MeasurementInsight*')],['output file','return values'])
prop('C24','Generated file names are unique within a run and reproducible',
 'File names generated during a run are pairwise different, carry the requested extension and root directory, begin with the program name, and depend only on the command line and the number of names generated before. All arguments of the command line enter the name\'s hash.',
 ['histories','inputs'],'every command line, every sequence of requests',
 'No passing test generates names.',
 [IT+'itktfRegression.cxx'],[('name generation','Regression::GenerateFileName')],['returned names'])
prop('C25','The pipe wrapper records exactly the child\'s standard output',
 'Whatever the child process writes, in whatever pieces and interleaving with its standard error, the recorded measurement is exactly the bytes of its standard output in order. The wrapper passes on the command and arguments unchanged, returns the child\'s exit value when it exits normally, and never reports success when the child could not be run or ended abnormally.',
 ['schedules','inputs','fault_sequences'],'every interleaving and chunking of the child\'s outputs, every way of ending',
 'No test runs the wrapper.',
 [TF+'tfPipeToXML.cxx'],[('capture loop','tfPipeToXMLRegressionTest::Test')],['recorded measurement','return value'])
prop('C26','The image comparison program applies each option to later files only',
 'For every argument list, each image file is compared under the tolerances set by the options before it, and measured under sequential names in order; a tolerance option without a valid value or an unknown option makes the program fail.',
 ['inputs'],'every argument list',
 'No test runs the program\'s argument handling.',
 [IT+'itktfImageCompare.cxx'],[('argument loop','itktfImageCompareRegressionTest::Test')],['measurements made','tolerances in effect','return value'])
prop('C27','Every mismatch is reported, and matches are not',
 'In compare mode the output holds, in order, exactly one report per measurement that does not match: the line difference for plain text, both values (labelled as test and baseline) for other kinds, and the unmatched measurement itself when there is no baseline of its name and type. Nothing is printed for matching measurements, and every report is well-formed and carries the measurement\'s name and value.',
 ['inputs','histories'],'every sequence of matching and mismatching measurements',
 'Existing tests count mismatches but never look at the reports.',
 RT+VIS,[('difference reports','DifferenceVisitor::Visit'),('unmatched reports','RegressionTest::UnmatchedMeasurement')],['output text'])
prop('C28','File predicates and directory listings mirror the file system',
 'For every path and file system state, the predicates for existing, file, directory, readable, writable and executable answer as the operating system does (directories need search permission to be readable or writable), a directory listing returns exactly its entries, and a non-directory lists nothing. Changing the current directory changes exactly that and refuses non-directories.',
 ['inputs','configurations'],'every file type, permission combination and directory content',
 'Tests touch existing readable files only.',
 PN+[FU+'FileUtilities.cpp'],[('predicates','PathName::IsFile, IsDirectory, Exists, IsReadable, IsWritable, IsExecutable'),('listing','PathName::SearchDirectory')],['returned values'])
prop('C29','The recorded output file is a complete XML document',
 'A recording run that completes writes one well-formed XML document: a declaration, one document element, and in it exactly the measurements made, in the order made, whatever their number, kinds, names and values. Nothing is lost or reordered, and the file is complete when the run returns.',
 ['histories','inputs'],'every sequence of recorded measurements',
 'Tests only replay recordings made long ago; none records a file and looks at it.',
 RT+MEAS,[('document framing','RegressionTest::WriteXMLOutputStart, WriteXMLOutputEnd')],['output file'])
prop('C30','Floating-point measurements survive their text form',
 'For every finite value the recorded text of a float or double measurement reads back within the number of digits the framework prints (7 and 16 significant digits).',
 ['inputs'],'all 2^32 floats and 2^64 doubles',
 'Two values are tried.',
 MEAS,[('number formatting','FloatNumeric::SetValue, DoubleNumeric::SetValue')],['content text'])
prop('C31','An image that does not match is reported, and the run goes on',
 'For every pair of image files that are reported as different, the report consists of well-formed measurements that carry the measurement\'s name: both sizes if they differ; otherwise both spacings, origins, pixel types, component types and numbers of components where they differ, the number of differing pixels under the tolerances, and the difference, baseline and test images, whose middle slices are written to the output directory. If an image cannot be read, the two file measurements are reported as for any other file. The measurements that follow are compared and counted as if the images had matched.',
 ['inputs','fault_sequences'],'every pair of images, geometry, pixel type, tolerance and read failure',
 'No passing test reports an image difference.',
 [IT+'itktfDifferenceVisitor.cxx',IT+'itktfRegression.cxx'],[('report','DifferenceVisitor::DifferenceTestImage'),('pictures','ImageThing')],['output text','written pictures','return value'])
prop('C32','An image measured from memory is written and recorded under its own file',
 'For every image, measuring it writes exactly that image (size, spacing, origin, pixels) to a newly generated file and measures that file under the given name: recording writes one measurement of type image/itk with the name and the file, and comparing matches exactly when the image agrees with its own baseline under the tolerances in effect.',
 ['inputs','histories'],'every image and sequence of measured images',
 'No passing test measures an image.',
 [IT+'itktfRegression.h'],[('write and measure','Regression::MeasurementInsightImage')],['written files','recorded measurements','return values'])
out=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),'properties.jsonl')
with open(out,'w') as f:
    for p in P: f.write(json.dumps(p)+'\n')
print(len(P))
