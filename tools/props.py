"""Which harness instances decide which property, and within what bounds."""
def I(entry,timeout=240,reach=('end',),optional=False,**params): return dict(entry=entry,params=params,timeout=timeout,reach=list(reach),optional=optional)
PROPS={}
B64=['TestingFramework/tfBase64.cpp']
def b64sizes(t): return list(range(0,13))+[53,54,55,56,57,107,108,109,110]+([] if t=='quick' else list(range(13,53))+[161,162,163,164,216,217])
PROPS['C01']=dict(groups=[dict(harness='base64.cpp',units=B64,instances=lambda t:[I('h_roundtrip',n=n) for n in b64sizes(t)])],
  bounds=lambda t:'all byte sequences of each length in %s, all option settings'%b64sizes(t),outside='other lengths (the code is uniform in the length apart from the 3-byte group and 72-character line positions, both covered)')
PROPS['C02']=dict(groups=[dict(harness='base64.cpp',units=B64,instances=lambda t:[I('h_canonical',n=n) for n in b64sizes(t)])],bounds=PROPS['C01']['bounds'],outside=PROPS['C01']['outside'])
PROPS['C03']=dict(groups=[dict(harness='base64.cpp',units=B64,instances=lambda t:[I('h_agree',reach=('valid',) if n==0 else ('valid','invalid') if n>=4 else (),len=n) for n in range(0,7 if t=='quick' else 10)])],
  bounds=lambda t:'all texts (any bytes) of length 0..%d, all option settings'%(6 if t=='quick' else 9),outside='longer texts')
def diffinst(e):
  def f(t):
    q=t=='quick'; r=[]
    for n in range(0,5 if q else 6):
      for m in range(0,5 if q else 6):
        if n+m<=(5 if q else 7): r.append(I(e,kind=0,n=n,m=m))
    for n in range(1,6 if q else 8):
      for m in range(1,6 if q else 8):
        if n+m<=(8 if q else 13): r.append(I(e,kind=1,n=n,m=m,alpha=2))
    for n in range(1,5):
      for m in range(1,5):
        if n+m<=(5 if q else 8): r.append(I(e,timeout=240 if q else 1500,kind=1,n=n,m=m,alpha=3,optional=not q and n+m>6))
    for n in (10,11) if q else (10,11,12,20): r.append(I(e,kind=2,n=n))
    return r
  return f
DIFFB=lambda t:('all texts of any bytes with total length <= %d; all texts of up to %d lines in total (1-7 per side) over two one-letter lines, and <= %d lines over three; single long lines of 10-12 printable characters (hash collisions)'%((5,8,5) if t=='quick' else (7,13,8)))
for p,e in (('C04','h_apply'),('C05','h_minimal')): PROPS[p]=dict(groups=[dict(harness='diff.cpp',units=['TestingFramework/tfDiff.cpp'],instances=diffinst(e))],bounds=DIFFB,outside='longer texts and more distinct lines')
NA={}
FU=['FileUtilities/PathName.cpp','FileUtilities/FileUtilities.cpp']
def P(id,harness,units,inst,bounds,outside,**k):
  g=dict(harness=harness,units=units,instances=inst); g.update({x:k.pop(x) for x in list(k) if x in ('std','rt','model','natrt','natlibs','symflags','natflags','uflags','asan')}); PROPS[id]=dict(groups=[g],bounds=bounds,outside=outside,**k)
P('C17','path.cpp',FU,lambda t:[I('h_decompose',n=n) for n in range(0,9 if t=='quick' else 12)]+[I('h_join',n=n,m=m) for n in range(0,5 if t=='quick' else 7) for m in range(0,5 if t=='quick' else 7)],
  lambda t:'all paths of up to %d bytes of any value; joins of all pairs of up to %d bytes each'%((8,4) if t=='quick' else (11,6)),'longer paths; the Windows branches')
P('C19','path.cpp',FU,lambda t:[I('h_split',n=n) for n in range(0,11 if t=='quick' else 15)]+[I('h_env',reach=('end','unset'),n=n) for n in range(0,8 if t=='quick' else 11)],
  lambda t:'all strings of up to %d bytes of any value; environment values of up to %d bytes'%((10,7) if t=='quick' else (14,10)),'longer strings (the splitting loop is uniform in the length)')
P('C18','path.cpp',FU,lambda t:[I('h_search',reach=('end',)+(('found',) if k and nn!=2 else ()),k=k,nl=nl,nn=nn,abs=int(t!='quick' or k==1)) for k in range(0,3 if t=='quick' else 4) for nl in (0,1,2) for nn in (1,2,3) if k*nl+nn<=(5 if t=='quick' else 7)]+[I('h_search',k=k,nl=1,nn=1,absname=1) for k in (0,1,2)],
  lambda t:'lists of up to %d entries, each either any string of up to 2 bytes or one of the tree\'s directories with or without a trailing separator; names of up to 3 bytes; a tree in which the first candidate is missing, a file, a directory, a fifo, or a working or dangling link'%(2 if t=='quick' else 3),'longer lists and names; other file system states')
P('C28','path.cpp',FU,lambda t:[I('h_predicates',reach=('end','listed')),I('h_listing'),I('h_curdir',reach=('end','changed','denied'),n=1),I('h_curdir',n=2)]+([] if t=='quick' else [I('h_curdir',n=3)]),
  'every kind (file, directory, fifo, nothing, link to each, dangling link) and permission of one entry, every permission of its directory, nine ways of naming it; every set of six entry names; every directory name of up to 2 bytes plus three longer ones','larger directories, other users, access control lists, device files')
MS=['TestingFramework/tfMeasurement.cpp','TestingFramework/tfMeasurementVisitor.cpp','TestingFramework/tfBase64.cpp','TestingFramework/tfDiff.cpp']
NUMS=[(1,1),(2,2),(19,19)]
P('C09','numeric.cpp',MS,lambda t:[I('h_tol_'+x,timeout=400,mode=m) for m in (0,2,4,3,1) for x in ('double','float')]+[I('h_tol_long',timeout=300 if t=='quick' else 1500,optional=a>2 or t!='quick',mode=m,nu=a,nv=b) for m in (0,2,4,3,1) for a,b in (NUMS if t=='quick' else [(a,b) for a in range(1,20) for b in range(1,20)]) if m in (0,) or (m==1 and a==b) or b>1 or t!='quick']+[I('h_tol_bool'),I('h_tol_mixed')],
  lambda t:'all finite float and double values and all finite tolerances; integers of %s decimal digits; all booleans'%('(1,1), (2,2) and (19,19)' if t=='quick' else 'any number of'),'infinite values and NaN; decimal conversion of floating-point values (a symbolic value is written as a token that reads back as the same value)')
P('C10','numeric.cpp',MS,lambda t:[I('h_int_text',n=n) for n in range(1,20)]+[I('h_int_differ',nu=a,nv=b) for a in range(1,20) for b in ((a,1) if t=='quick' else range(1,20)) if t!='quick' or a<7 or a in (10,18,19) or b==1]+[I('h_bool')],'all values of long, by number of digits; pairs of every combination of digit counts (thorough) or equal counts and against one digit (quick); both booleans','platforms where long is not 64 bits wide')
P('C06','measure.cpp',MS,lambda t:[I('h_print',kind=k,name=a,content=b) for k in range(6) for a,b in ([(2,0),(0,2),(1,1)] if k else [(2,0),(0,2),(0,3),(1,1),(3,0)]+([] if t=='quick' else [(2,2),(0,4),(4,0)]))]+[I('h_print',kind=6,name=a,content=b,type=c) for a,b,c in ((1,1,1),(0,2,0),(2,0,0),(0,0,2))]+[I('h_print',kind=k,name=0,content=c,enc=a,comp=b) for k in (0,2) for a,b,c in ((2,0,0),(0,2,0),(1,1,1))]+[I('h_print',kind=0,name=0,content=0,enc=4)]+[I('h_print',kind=0,name=0,content=0,comp=4),I('h_print',kind=1,name=1,content=1,shift=1)],
  lambda t:'every measurement kind; names of up to %d and contents of up to %d printable characters (contents with tabs and newlines), encodings and compressions of up to 4 printable characters, types of file measurements of up to 2'%((3,3) if t=='quick' else (4,4)),'longer texts (printing is uniform in the length); escaping switched off; non-ASCII text')
P('C15','measure.cpp',MS,lambda t:[I('h_files',n=n,m=m) for n in range(0,4 if t=='quick' else 6) for m in range(0,4 if t=='quick' else 6)]+[I('h_bigfiles',n=n) for n in ((4096,8192,12001) if t=='quick' else (1023,1024,4095,4096,4097,8191,8192,8193,12001,16384))],
  lambda t:'all contents of up to %d bytes, each file readable, missing or unreadable, four types; larger files (to 12001 or 16384 bytes) that differ in any one of five bytes or in length'%(3 if t=='quick' else 5),'other differences of large files; directories and read errors in the middle of a file')
P('C16','measure.cpp',MS,lambda t:[I('h_history',kind=k,ops=n,eager=e) for k in range(4) for n in range(0,4 if t=='quick' else 5) for e in (0,1) if (n<3 or k in (0,2))and(n<4 or not k)],
  lambda t:'every history of up to %d of: setting content (no bytes, one arbitrary byte, or any four capital letters), data (0, 1 or 3 arbitrary bytes), the encoding (none, base64), the name, compression, copying, assigning either way, self-assignment, setting a part of the present data; views read after every step or only at the end'%(3 if t=='quick' else 4),'longer histories; unsupported encodings and contents that are not valid base64 (their data view is not specified)')
P('C20','measure.cpp',MS,lambda t:[I('h_visit'),I('h_visit_diff'),I('h_visit_compare')],'every library measurement type and user types derived from each class; every subset of the eleven handlers; visitors derived from each of the three library visitors','none')

ALL=MS+['TestingFramework/tfRegressionTest.cpp']+FU
RUN=dict(natlibs=['-lexpat'])
REPLAY=[(1,1,1,0),(2,10,1,0),(2,1,1,0),(1,0,1,2),(1,1,1,2),(1,0,2,1),(1,0,0,3),(1,0,3,0),(1,1,0,3),(1,3,1,0),(1,4,1,0),(1,5,1,0),(1,6,1,0),(1,7,1,0),(1,8,1,0),(2,10,1,1),(3,501,1,1),(3,678,1,1),(3,342,0,0)]
P('C07','replay.cpp',ALL,lambda t:[I('h_replay',n=n,kinds=k,name=a,text=b) for n,k,a,b in REPLAY+([] if t=='quick' else [(1,0,0,4),(1,1,4,0),(4,1010,1,1)])]+[I('h_replay',n=1,kinds=k,name=1,text=1,report=1) for k in range(9)]+[I('h_replay',n=1,kinds=k,name=1,dir=1) for k in (6,7,8)]+[I('h_replay',n=1,kinds=2,digits=d,neg=g,name=0) for d in range(1,20) for g in (0,1)],lambda t:'sequences of up to %d measurements of every kind: names and texts of up to %d printable characters (texts with tabs and newlines), integers of every number of digits and both signs, every finite float and double, both booleans, files of 2 arbitrary bytes in the current directory or on the search path'%((3,3) if t=='quick' else (4,4)),'longer sequences and texts; decimal conversion of floating-point values (modelled as exact, see C30)',**RUN)
P('C08','replay.cpp',ALL,lambda t:[I('h_count',nb=a,nt=b,kinds=k) for a,b,k in ((0,0,1),(0,1,6),(1,0,6),(1,1,6),(1,2,3),(2,1,3),(2,2,2),(3,3,1),(3,2,2),(2,3,2))+(() if t=='quick' else ((2,2,3),(3,3,2),(2,2,6),(4,4,1)))]+[I('h_count',nb=a,nt=b,kinds=k,name=n,text=x) for a,b,k,n,x in ((1,1,2,0,1),(1,2,2,0,0),(1,1,2,2,2),(1,1,6,2,0),(2,2,2,0,1))]+[I('h_many',many=m,good=g) for m,g in ((127,0),(128,1),(255,0),(256,0),(257,1),(512,0),(600,100))+(() if t=='quick' else ((65536,0),))],lambda t:'up to %d baseline and test measurements; kinds string, plain text, integer, double, boolean, file; names and texts of up to two printable characters (empty ones included), one-digit integers, three doubles; both tolerance settings; expected return 0 and 3; runs of up to 600 measurements that differ or match together'%(3 if t=='quick' else 4),'longer sequences (the comparison handles one position at a time)',**RUN)
P('C12','replay.cpp',ALL,lambda t:[I('h_result'),I('h_setup')],'every pair of return and expected value; both modes; 0-2 mismatches; no exception or one of 19 kinds (with any message of 0 or 2 bytes) raised during set-up, at the start or end of the test, or during tear-down; eight failing set-ups; the baseline file vanishing during the run','exceptions raised while another one is handled; failing allocation',**RUN)
P('C27','replay.cpp',ALL,lambda t:[I('h_reports',nb=a,nt=b,kinds=k) for a,b,k in ((0,0,1),(0,1,6),(1,1,6),(1,2,3),(2,2,2))+(() if t=='quick' else ((2,2,3),(3,3,1),(2,3,2)))]+[I('h_reports',nb=a,nt=b,kinds=k,name=n,text=x) for a,b,k,n,x in ((0,1,6,0,1),(1,1,2,0,0),(1,1,6,2,0),(1,1,2,2,2),(1,1,6,0,1))],lambda t:'up to %d baseline and test measurements as for C08; report to a file or to standard output'%(2 if t=='quick' else 3),'longer sequences and values (printing is covered by C06, the line difference by C04)',**RUN)
P('C29','replay.cpp',ALL,lambda t:[I('h_document',n=n,kinds=k,name=a,text=b,reach=('end','doc')) for n,k,a,b in REPLAY if (n,a,b)!=(3,1,1)or t!='quick']+[I('h_document',n=n,kinds=k,name=1,text=b,files=1,reach=('end','doc')) for n,k,b in ((1,6,1),(1,7,1),(1,8,1),(1,6,2),(1,7,2),(1,8,2),(2,77,1),(2,87,1),(1,6,0))]+[I('h_document',n=0,host=h,reach=('end','doc')) for h in (0,1,2,3,4,5,63,255,256,300)]+[I('h_document',n=3,kinds=501,name=1,text=0,repeat=60,reach=('end','doc'))],'sequences as for C07, 180 measurements in a row, file measurements naming any file of up to 2 printable characters, an output file that exists or not, standard output; host names of up to 5 arbitrary host name characters and of up to 300 characters, unavailable host name','longer sequences; write errors',symflags=['-DHOSTNAME'],natflags=['-DHOSTNAME'],**RUN)
P('C11','options.cpp',ALL,lambda t:[I('h_any',n=n,lens=l,reach=()) for n,l in ((0,0),(1,0),(1,1),(1,2),(1,3),(2,12),(2,2),(2,22),(3,212),(3,222),(4,2222),(4,1212),(5,21212))+(() if t=='quick' else ((3,223),(6,212121),(6,222222)))]+[I('h_options',n=n,tail=k,num=m) for n,k,m in ((0,3,0),(1,2,1),(2,1,0),(3,0,0))+(() if t=='quick' else ((3,1,0),(0,5,0)))],lambda t:'all vectors of up to 5 arguments of 1-2 (thorough: up to 6) arbitrary non-NUL bytes in a tree with readable, unreadable, read-only files and directories; up to 3 options with chosen values followed by up to 3 arguments','longer vectors and arguments; the same file as input and output; an unwritable output file after a writable one (may or may not fall back)',**RUN)
P('C13','baseline.cpp',ALL,lambda t:[I('h_hole',reach=('end',),t=k,n=n) for k in range(21) for n in range(0,(4 if k else 5) if t=='quick' else (5 if k else 7))]+[I('h_cut')]+[I('h_byte',**{'from':k}) for k in range(32,304,16)]+[I('h_hole',t=k,n=2,pad=p) for k in (2,7,10) for p in (1022,1023,1024)]+[I('h_long',n=3000,m=1),I('h_long',n=100,m=30)],lambda t:'all documents of up to %d bytes; up to %d arbitrary bytes at each of 20 places of a document (contents, attributes, names, nested and unknown elements, references, CDATA, comments, before and after the root); one document cut at every place and with every byte after the declaration replaced by any byte; holes at the parser buffer boundary; long contents'%((4,3) if t=='quick' else (6,4)),'documents with a DOCTYPE, byte order marks or a non-ASCII encoding; other documents. The XML parser is modelled (rt/expat.cpp) and checked against the real one on replayed paths',**RUN)

P('C14','chunks.cpp',ALL,lambda t:[I('h_chunks',n=n,range=128) for n in range(0,4224 if t=='quick' else 33*1024,128)]+[I('h_chunks',n=n) for n in (8191,8192,8193,16384,65535,65536,65537)],lambda t:'every file size from 0 to %d and some larger ones; all contents of up to 4 bytes, six arbitrary bytes in larger files'%(4223 if t=='quick' else 33791),'larger sizes (the reading loop only distinguishes sizes by their distance to a multiple of its buffer size); read errors in the middle of a file; the parser itself, which is replaced by a recorder',**{})

PROPS['C10']['groups'].append(dict(harness='replay.cpp',units=ALL,natlibs=['-lexpat'],instances=lambda t:[I('h_document',n=1,kinds=2,digits=d,neg=g,name=0,reach=('end','doc')) for d in ((1,5,10,11,19) if t=='quick' else range(1,20)) for g in (0,1)]+[I('h_int_run',nu=a,nv=b,uneg=x,vneg=x) for a,b in ((1,1),(3,3),(10,10),(1,10),(19,19)) for x in (0,1)]))
P('C30','float.cpp',ALL,lambda t:[I('h_double'),I('h_float'),I('h_double_run'),I('h_float_run')],'every double of magnitude 1e-306 to 1e307 and every float of magnitude 1e-36 to 1e38, and zero; reading the text from the measurement, another measurement, a copy, an assigned measurement, and the recorded document','smaller (denormal) and larger values; the C library conversions themselves, which are taken to round correctly',**RUN)
PROPS['C18']['groups'].append(dict(harness='replay.cpp',units=ALL,natlibs=['-lexpat'],instances=lambda t:[I('h_lookup',dirs=d) for d in (0,1,2)]))

ITKU=ALL+['itktf/itktfRegression.cxx','itktf/itktfCompareVisitor.cxx','itktf/itktfDifferenceVisitor.cxx']
ITK=dict(model=['itk'],symflags=['-I/usr/include/ITK-5.3'],natflags=['-I/usr/include/ITK-5.3'],natlibs=['-lexpat','-lITKCommon-5.3','-lITKIOImageBase-5.3','-litksys-5.3','-litkvnl-5.3','-litkvnl_algo-5.3'])
P('C24','itk_names.cpp',ITKU,lambda t:[I('h_names',args=a,prog=p,len=l,ext=e) for a,p,l,e in ((0,1,0,0),(1,1,1,1),(2,2,2,2))+(() if t=='quick' else ((3,3,2,3),(4,1,1,1)))]+[I('h_hash',args=a,len=l) for a,l in ((1,1),(2,2),(1,4))+(() if t=='quick' else ((4,1),(3,3),(1,8)))]+[I('h_many',n=n) for n in ((20,) if t=='quick' else (20,40))],
  lambda t:'command lines of up to %d arguments and program names of up to %d arbitrary bytes (no "-"), three requests with extensions of up to %d and roots of up to 2 arbitrary bytes or one of four texts; %d requests in a run; pairs of command lines that differ in any one byte'%((2,2,2,20) if t=='quick' else (4,3,3,40)),'longer command lines; command lines that differ in several places may share a hash (it has 32 bits)',**ITK)
G9=[(k,d,g) for k in range(7) for d,g in ((1,0),(4,5),(10,2),(19,7))]
P('C23','itk_geometry.cpp',ITKU,lambda t:[I('h_record',kind=k,name=1,digits=d,neg=g) for k,d,g in G9]+[I('h_record',kind=k,name=n) for k in range(7,16) for n in ((1,) if t=='quick' else (0,1,2,3))]+[I('h_compare',kind=k,digits=d,neg=g) for k,d,g in G9 if t!='quick' or d in (1,19)]+[I('h_compare',kind=k) for k in range(7,16)]+[I('h_tolerance',kind=k) for k in range(16)]+[I('h_sequence',kind=k,other=o) for k,o in ((0,1),(3,6),(5,13),(12,8))+(() if t=='quick' else tuple((k,(k*5+3)%16) for k in range(16)))],
  lambda t:'sizes, indices and regions (1 to 3 dimensions) with components of 1, 4, 10 and 19 digits mixed with others and both signs of indices; points, vectors, arrays and matrices of float and double with every finite value; names of up to %d printable characters; a baseline that differs in any one component by any amount; two measurements in a row'%(1 if t=='quick' else 3),'sizes above the largest long; infinite and NaN components; other dimensions (the loops are uniform in the dimension)',**ITK)
FL=[('double',dict(w=1,h=1)),('float',dict(w=1,h=1,radius=1)),('short',dict(w=1,h=1,radius=2)),('uchar',dict(w=1,h=1,spare=1)),('double',dict(w=2,h=1,pieces=2,x0=5)),('float',dict(w=1,h=2,pieces=2,spare=1)),('short',dict(w=2,h=1,pieces=2,radius=1)),('uchar',dict(w=1,h=2,pieces=2,radius=1)),('double',dict(w=2,h=1,again=1)),('float',dict(w=2,h=1,again=1,radius=1,pieces=2)),('float',dict(w=2,h=2,radius=1,pieces=2,valid=1,test=2)),('double',dict(w=3,h=3,radius=1,pieces=2,valid=16,test=16,thr=20)),('double',dict(w=3,h=3,radius=1,pieces=3,valid=16,test=130,thr=50)),('uchar',dict(w=5,h=1,radius=2,pieces=2,valid=4,test=4,thr=40)),('short',dict(w=3,h=2,radius=1,pieces=2,valid=3,test=0,thr=33)),('double',dict(w=4,h=1,radius=1,pieces=3,x0=-3,valid=6,test=4,thr=30)),('double',dict(w=2,h=1,pieces=2,units=2,thr=9)),('double',dict(w=3,h=1,pieces=3,units=3,thr=9,valid=2,test=2))]
FT=[('double',dict(w=3,h=2,pieces=3)),('float',dict(w=3,h=1,radius=1,pieces=3,valid=3)),('short',dict(w=3,h=1,radius=1)),('float',dict(w=2,h=2,radius=1,pieces=2,valid=4,test=9,thr=20)),('double',dict(w=3,h=3,radius=1,pieces=3,valid=257,test=16,thr=25))]
P('C21','itk_filter.cpp',ITKU,lambda t:[I('h_int_'+x,timeout=300 if t=='quick' else 1500,**q) for x,q in FL+([] if t=='quick' else FT)]+[I('h_point',timeout=300,**q) for q in [dict(w=1,h=1),dict(w=2,h=1,pieces=2),dict(w=2,h=1,radius=1,sym=1),dict(w=2,h=1,radius=1,sym=2)]+([] if t=='quick' else [dict(w=2,h=1,radius=1,sym=3),dict(w=2,h=1,radius=1)])],
  lambda t:'pixel types double, float, short and unsigned char with every 8-bit value in all pixels of images of up to 2x1 (thorough: 3x2) and in chosen pixels of images of up to 3x3 and 5x1; every 8-bit threshold; radius 0 to 2; images that start at an index other than zero; both boundary settings; every division into up to 3 pieces along either axis, with and without unused work units; a filter that is used a second time; one pixel of each image and the threshold any double (also infinite, NaN pixels) in images of up to 2 pixels. Work units are checked for data races, so that their order does not matter','larger images; vector pixels; sums of values whose addition rounds (order of summation); divisions into blocks',**ITK)
P('C25','pipe.cpp',ALL,lambda t:[I('h_pipe',n=n,sizes=z) for n,z in ((0,0),(1,0),(1,1),(1,3),(2,11),(2,12),(3,111))+(() if t=='quick' else ((3,212),(4,1111),(5,11111)))]+[I('h_pipe',n=2,long=k) for k in ((600,1025) if t=='quick' else (1023,1024,4096))]+[I('h_again',n=n,sizes=z) for n,z in ((1,1),(2,11))]+[I('h_command',args=n) for n in (1,2,3,4)]+[I('h_none')],'every sequence of up to 3 (quick) or 5 (thorough) pieces of up to 3 characters, or 2 pieces of up to 1025 (quick) or 4096, each from either pipe; every way a child can end, exit values 0 to 255; commands of up to 4 arguments of arbitrary bytes','the process library itself (its documented interface is modelled); output that XML cannot carry (control characters); longer outputs',natflags=['-I/usr/include/ITK-5.3'],symflags=['-I/usr/include/ITK-5.3'],**RUN)
def q22(t): Q=t=='quick'; return [I('h_double2',base=b,test=b,**k) for b,k in ((22,{}),(21,dict(radius=1)),(12,dict(region=1)),(21,dict(region=1,radius=1,x0=3)),(21,dict(region=1,form=1)),(12,dict(form=1)),(12,dict(form=2)),(11,dict(any=1)))]+[I('h_double2',base=b,test=c,**k) for b,c,k in ((21,22,{}),(12,21,{}),(11,13,dict(region=1)),(22,11,dict(form=1)))]+[I('h_short2',base=21,test=21,**k) for k in ({},dict(radius=1),dict(region=1))]+[I('h_float3',base=b,test=b,**k) for b,k in ((111,{}),(211,dict(radius=1)),(121,dict(region=1,x0=2)))]+[I('h_float3',base=211,test=121)]\
 +[I('h_files',base=21,test=21,**k) for k in ({},dict(radius=1),dict(form=1,thr=0,tol=0))]+[I('h_files',base=111,test=11,fault=1),I('h_files',base=21,test=12),I('h_files',base=11,test=11,geometry=2)]\
 +[I('h_visit',base=b,test=c,**k) for b,c,k in ((21,21,{}),(21,21,dict(radius=1)),(112,112,{}),(11,11,dict(geometry=1)),(11,11,dict(geometry=2,tol=0,thr=0)),(111,111,dict(geometry=2,tol=0,thr=0)),(11,11,dict(fault=1)),(21,12,{}),(111,211,{}),(11,111,{}),(21,21,dict(again=1,set=2,thr=0,tol=0)),(11,11,dict(again=1)),(11,11,dict(set=1,thr=0,tol=0)),(11,11,dict(any=1)))]+[I('h_other')]\
 +[I('h_run',base1=a,test1=b,base2=c,test2=d,**k) for a,b,c,d,k in ((11,11,11,11,{}),(11,11,11,11,dict(how=1)),(11,11,21,12,dict(how=2)),(21,21,12,21,dict(radius=1)))]\
 +([] if Q else [I('h_double2',base=33,test=33,timeout=900),I('h_double2',base=22,test=22,radius=1,timeout=900),I('h_double2',base=22,test=22,region=1,timeout=900),I('h_double2',base=22,test=22,region=1,radius=1,timeout=900),I('h_double2',base=21,test=21,any=1,timeout=900),I('h_float3',base=222,test=222,timeout=900),I('h_float3',base=212,test=212,radius=1,timeout=900),I('h_visit',base=21,test=21,any=1,timeout=900),I('h_visit',base=22,test=22,radius=1,timeout=900),I('h_visit',base=111,test=111,geometry=1,fault=1,timeout=900),I('h_run',base1=21,test1=21,base2=11,test2=11,radius=1,how=1,timeout=900)])
P('C22','itk_compare.cpp',ITKU,q22,
  lambda t:'images of up to %s pixels (2 or 3 dimensions) with every 8-bit value in every pixel, or one pixel of every double value (thorough: two); every 8-bit intensity tolerance (or any double of at least 0), every pixel-count tolerance, radius 0 and 1; images of float, double and short pixels; every pair of these sizes, every region inside the image, images that start at an index other than zero; files that do not exist, have no reader, a broken header or broken data; spacings 1, the next double above 1, and 2.5; origins of every finite value; two images in a run under different tolerances'%('2x2 and 2x1x1' if t=='quick' else '3x3 and 2x2x2'),'larger images; the image formats (a reader that delivers the stored pixels stands for them); orientation, which the comparison does not look at; in-memory images of the same size that start at different indices; with a region and a radius, neighbours outside of the region may count or not',**ITK)
P('C26','itk_program.cpp',ITKU,lambda t:[I('h_options',shape=s,n=n) for s,n in ((0,1),(0,3),(10,3),(20,3),(30,3),(2,1+1),(310,4),(3210,5),(1203,5))]+[I('h_options',shape=s,n=n,both=1) for s,n in ((1,2),(3,2),(20,3))]+[I('h_wrong',before=b,after=a) for b,a in ((0,0),(1,0),(0,1),(1,1))]+[I('h_garbage',option=o,len=l) for o in (1,2,3) for l in (1,2)]+[I('h_unknown',len=l) for l in (1,3,18)]+[I('h_none')]
  +([] if t=='quick' else [I('h_options',shape=s,n=n,timeout=900) for s,n in ((10203,6),(102030,7),(110,4),(220,4),(330,4),(123,4),(30201,6),(12300,6))]+[I('h_options',shape=s,n=n,both=1,timeout=900) for s,n in ((10,3),(30,3),(310,4))]+[I('h_wrong',before=2,after=2)]+[I('h_garbage',option=o,len=l,timeout=900) for o in (1,2,3) for l in (3,4)]+[I('h_unknown',len=l) for l in (2,17,20)]),
  lambda t:'argument lists of up to %d files and options in the orders listed, each option with 2 to 5 values; test images of 2 pixels, one or both with every 8-bit value, so that the tolerances in effect show; one missing, malformed, negative or too large value, or one unknown option, among up to %d files, while recording and while comparing; malformed values of up to %d and unknown options of up to 18 arbitrary bytes'%((6,2,2) if t=='quick' else (7,4,4)),'longer argument lists; negative or infinite intensity tolerances; file names that begin with "-"; the image formats (a reader that delivers the stored pixels stands for them)',**ITK)
P('C31','itk_report.cpp',ITKU,lambda t:[I('h_report',base=b,test=c,**k) for b,c,k in ((11,11,dict(bsym=1)),(21,21,dict(tsym=3,thr=1)),(21,21,dict(tsym=1,radius=1,thr=1)),(11,11,dict(geometry=1)),(11,11,dict(geometry=2)),(11,11,dict(geometry=3)),(11,11,dict(types=1,tsym=0)),(11,11,dict(tsym=0,rgb=1)),(21,12,{}),(11,211,{}),(121,121,dict(geometry=3,name=2)),(312,312,dict(tsym=0,grey=1)),(23,23,dict(tsym=0,grey=1)),(33,33,dict(tsym=32,thr=1)))]+[I('h_unreadable'),I('h_run')]
  +([] if t=='quick' else [I('h_report',base=b,test=c,timeout=900,**k) for b,c,k in ((111,111,dict(geometry=1,name=2)),(111,111,dict(geometry=2)),(211,211,dict(tsym=3,bsym=3,thr=1)),(22,22,dict(tsym=15,thr=1)),(222,222,dict(tsym=129,radius=1,thr=1)),(21,21,dict(types=1,rgb=1,tsym=0,name=0)),(534,534,dict(tsym=0,grey=1)),(11,11,dict(name=4)))]),
  lambda t:'pairs of images of up to 3x3 and 3x1x2 pixels, up to 2 (thorough: 4) of them of every 8-bit value; every 8-bit intensity tolerance, every pixel-count tolerance, radius 0 and 1; spacings and origins of three values each on any axis; component types double, short, float, unsigned char, scalar and colour pixels; different sizes; every combination of readable files and files without reader, with broken header or data, or missing; names of up to %d printable characters; a run of an image, a text and another image that match or not'%(2 if t=='quick' else 4),'larger images; the grey values of the pictures beyond order and extremes (ITK computes them); the image formats (a reader and writer that keep the pixels stand for them); pictures that cannot be written',**ITK)
P('C32','itk_memory.cpp',ITKU,lambda t:[I('h_record_double2',size=21),I('h_record_double2',size=11),I('h_record_short3',size=112),I('h_record_float2',size=12),I('h_compare_double2',size=11),I('h_compare_double2',size=11,tolerance=1),I('h_compare_short3',size=111)]
  +([] if t=='quick' else [I('h_record_double2',size=33,timeout=900),I('h_record_double2',size=11,name=2,timeout=900),I('h_compare_double2',size=11,shift=1,timeout=900),I('h_record_short3',size=222,timeout=900),I('h_compare_double2',size=12,tolerance=1,timeout=900),I('h_compare_double2',size=21,timeout=900),I('h_compare_short3',size=111,shift=1,timeout=900)]),
  lambda t:'two images in a run, of double, float and short pixels and up to %s pixels with every 8-bit value (signed); every finite origin; names of up to %d printable characters; compared with baselines that differ in any one pixel by any amount (thorough: or in the origin), under every 8-bit intensity tolerance and 0 or 1 pixels'%(('2x1x1',1) if t=='quick' else ('3x3 and 2x2x2',2)),'larger images; the image formats (a reader and writer that keep the pixels stand for them); files that cannot be written',**ITK)
