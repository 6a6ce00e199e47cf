from vf_h import H
T = ['core', 'gdb', 'koops', 'python', 'java', 'ruby', 'js']
JT = [0, 2, 3, 4, 5, 6]      # types with a JSON form
DW = tuple('-D%s=vf_%s' % (f, f) for f in ('dwfl_errmsg elf_errmsg elf_version elf_begin elf_end gelf_getehdr dwfl_begin dwfl_end dwfl_core_file_report dwfl_linux_proc_report dwfl_report_end dwfl_module_getelf dwfl_module_info dwfl_getmodules dwfl_core_file_attach dwfl_linux_proc_attach dwfl_getthreads dwfl_thread_getframes dwfl_getthread_frames dwfl_thread_tid dwfl_frame_thread dwfl_thread_dwfl dwfl_frame_pc dwfl_addrmodule dwfl_module_build_id dwfl_module_addrname dwfl_offline_section_address dwfl_linux_proc_find_elf dwfl_build_id_find_elf realpath elf_getphdrnum gelf_getphdr elf_getdata_rawchunk gelf_getnote ptrace waitpid').split()) + ('-D__cxa_demangle=vf_demangle',)   # libelf and libdwfl: harness/vdw.h
EL = tuple('-D%s=vf_%s' % (f, f) for f in 'elf_errmsg dwarf_errmsg elf_version elf_begin elf_end elf_getshdrstrndx elf_getshdrnum elf_nextscn elf_getscn elf_ndxscn gelf_getshdr elf_getdata elf_strptr gelf_getrela gelf_getsym elf_getident elf_getphdrnum gelf_getphdr dwarf_next_cfi'.split())   # libelf and libdw: harness/elf.c
RPM = tuple('-D%s=vf_%s' % (f, f) for f in 'rpmReadConfigFiles rpmtsCreate rpmtsFree rpmtsInitIterator rpmdbNextIterator rpmdbFreeIterator rpmtdNew rpmtdFree rpmtdReset rpmtdFreeData rpmtdGetString rpmtdGetUint32 rpmtdGetNumber headerGet headerIsEntry headerGetString headerGetNumber'.split())   # librpm: harness/rpmdb.c
IO = tuple('-D%s=vf_%s' % (f, f) for f in 'open open64 close lseek lseek64 read pread write fsync access fstat stat'.split())   # the library's file system calls go to harness/vfs.h
PY = ('-DVF_PYTHON', '-I/usr/include/python3.12')
PROPS = {
 'C01': dict(harnesses=[
    H('scan.c', {'MODE': 0, 'N': 3}, {'N': 5}, name='single', cover=['single', 'sequence']),
    H('scan.c', {'MODE': 1, 'N': 3}, {'N': 5}, name='span', cover=['span']),
    H('scan.c', {'MODE': 2, 'N': 3}, {'N': 5}, name='string', cover=['string']),
    H('num.c', {'KIND': 0, 'MINLEN': 0, 'LEN': 21}, name='uint32', cover=['fits', 'refused']),
    H('num.c', {'KIND': 1, 'MINLEN': 0, 'LEN': 21}, name='uint64', cover=['fits', 'refused']),
    H('num.c', {'KIND': 2, 'MINLEN': 0, 'LEN': 17}, name='hex64', cover=['fits', 'refused']),
    H('num.c', {'KIND': 3, 'MINLEN': 0, 'LEN': 17}, name='hex0x', cover=['fits', 'refused']),
 ]),
 'C02': dict(harnesses=[
    H('loc.c', {'MODE': 0, 'N': 5}, {'N': 8}, name='strchr', cover=['found']),
    H('loc.c', {'MODE': 1, 'N': 5, 'NT': 3}, {'N': 7, 'NT': 3}, name='strstr', cover=['found']),
    H('loc.c', {'MODE': 2, 'N': 4}, {'N': 6}, name='strspn', cover=['span']),
    H('loc.c', {'MODE': 3, 'N': 5}, {'N': 8}, name='nextline', cover=['next']),
    H('loc.c', {'MODE': 4, 'N': 5}, {'N': 8}, name='add', cover=['add']),
    H('loc.c', {'MODE': 5}, name='cmp', cover=['cmp']),
    H('loc.c', {'MODE': 6}, name='tostring', cover=['text']),
 ]),
 'C35': dict(harnesses=[
    H('text.c', {'MODE': 0, 'N': 5}, {'N': 8}, name='indent', cover=['indent']),
    H('text.c', {'MODE': 1, 'N': 4}, {'N': 8}, name='bin2hex', cover=['hex']),
    H('text.c', {'MODE': 2}, name='path', cover=['path']),
    H('text.c', {'MODE': 3, 'N': 5}, {'N': 8}, name='struniq', cover=['uniq']),
    H('text.c', {'MODE': 5}, name='strcmp', cover=['cmp']),
 ]),
 'C31': dict(harnesses=[
    H('text.c', {'MODE': 4, 'N': 5}, {'N': 8}, name='anonymize', cover=['home', 'other']),
 ]),
 'C06': dict(harnesses=[
    H('python.c', {'MODE': 0, 'N': 4}, {'N': 8}, name='anytext', cover=['refused']),
    H('python.c', {'MODE': 1, 'N': 4}, {'N': 9}, name='anyframe', cover=['refused']),
    H('python.c', {'MODE': 2, 'WHICH': 0, 'K': 2}, {'K': 3}, name='disturb', cover=['parsed', 'refused']),
    H('python.c', {'MODE': 2, 'WHICH': 1, 'K': 2}, {'K': 3}, name='syntax', cover=['parsed', 'refused']),
    H('python.c', {'MODE': 3, 'K': 2}, {'K': 3}, name='frame', cover=['parsed', 'refused']),
    H('python.c', {'MODE': 4, 'N': 2, 'NF': 2}, {'N': 3, 'NF': 2}, name='faithful', cover=['faithful']),
 ]),
 'C08': dict(harnesses=[
    H('ruby.c', {'MODE': 0, 'N': 6}, {'N': 10}, name='anytext', cover=['refused']),
    H('ruby.c', {'MODE': 1, 'N': 6}, {'N': 9}, name='anyframe', cover=['refused']),
    H('ruby.c', {'MODE': 2, 'K': 2}, {'K': 3}, name='disturb', cover=['parsed', 'refused']),
    H('ruby.c', {'MODE': 3, 'K': 2}, {'K': 4}, name='frame', cover=['parsed', 'refused']),
    H('ruby.c', {'MODE': 4, 'N': 2, 'NF': 2}, {'N': 3, 'NF': 2}, name='faithful', cover=['faithful']),
 ]),
 'C09': dict(harnesses=[
    H('js.c', {'MODE': 0, 'N': 6}, {'N': 10}, name='anytext', cover=['refused']),
    H('js.c', {'MODE': 1, 'N': 6}, {'N': 9}, name='anyframe', cover=['refused']),
    H('js.c', {'MODE': 2, 'K': 2}, {'K': 3}, name='disturb', cover=['parsed', 'refused']),
    H('js.c', {'MODE': 3, 'K': 2}, {'K': 4}, name='frame', cover=['parsed', 'refused']),
    H('js.c', {'MODE': 4, 'N': 2, 'NF': 2}, {'N': 3, 'NF': 2}, name='faithful', cover=['faithful']),
 ]),
 'C07': dict(harnesses=[
    H('java.c', {'MODE': 0, 'N': 9}, {'N': 8}, name='anytext', cover=['refused', 'parsed']),
    H('java.c', {'MODE': 1, 'N': 8}, {'N': 8}, name='anyframe', cover=['refused', 'parsed']),
    H('java.c', {'MODE': 2, 'WHICH': 0, 'K': 2}, {'K': 3}, name='disturb', cover=['parsed', 'refused']),
    H('java.c', {'MODE': 2, 'WHICH': 1, 'K': 2}, {'K': 3}, name='suppressed', cover=['parsed', 'refused']),
    H('java.c', {'MODE': 3, 'K': 2}, {'K': 4}, name='frame', cover=['parsed', 'refused']),
    H('java.c', {'MODE': 4, 'N': 2}, {'N': 4}, name='onefrm', cover=['faithful']),
    H('java.c', {'MODE': 5, 'N': 2, 'NE': 2}, {'N': 2, 'NE': 3}, name='trace', cover=['faithful']),
 ]),
 'C03': dict(harnesses=[
    H('gdb.c', {'MODE': 0, 'N': 5}, {'N': 7}, name='anytext', cover=['refused', 'parsed']),
    H('gdb.c', {'MODE': 1, 'N': 5}, {'N': 6}, name='parts', cover=['refused', 'parsed']),
    H('gdb.c', {'MODE': 2, 'WHICH': 0, 'K': 2}, {'K': 3}, name='disturb', cover=['parsed', 'refused']),
    H('gdb.c', {'MODE': 2, 'WHICH': 1, 'K': 2}, {'K': 3}, name='disturb2', cover=['parsed', 'refused']),
    H('gdb.c', {'MODE': 3, 'WHICH': 0, 'K': 2}, {'K': 3}, name='frame', cover=['parsed', 'refused']),
    H('gdb.c', {'MODE': 3, 'WHICH': 1, 'K': 2}, {'K': 3}, name='frame2', cover=['refused']),
    H('gdb.c', {'MODE': 3, 'WHICH': 2, 'K': 2}, {'K': 3}, name='frame3', cover=['parsed', 'refused']),
    H('gdb.c', {'MODE': 6, 'K': 2}, {'K': 3}, name='thread', cover=['parsed', 'refused']),
 ]),
 'C04': dict(harnesses=[
    H('gdb.c', {'MODE': 4, 'N': 1}, {'N': 3}, name='onefrm', cover=['faithful']),
    H('gdb.c', {'MODE': 5, 'N': 1}, {'N': 1}, name='backtrace', cover=['faithful']),
 ]),
 'C05': dict(harnesses=[
    H('koops.c', {'MODE': 0, 'N': 4}, {'N': 6}, name='anytext', cover=['parsed']),
    H('koops.c', {'MODE': 1, 'N': 5}, {'N': 7}, name='parts', cover=['refused', 'parsed']),
    H('koops.c', {'MODE': 2, 'WHICH': 0, 'K': 2}, {'K': 3}, name='disturb', cover=['parsed']),
    H('koops.c', {'MODE': 2, 'WHICH': 1, 'K': 2}, {'K': 3}, name='disturb2', cover=['parsed']),
    H('koops.c', {'MODE': 3, 'K': 2}, {'K': 3}, name='frame', cover=['parsed', 'refused']),
    H('koops.c', {'MODE': 4, 'N': 1}, {'N': 3}, name='onefrm', cover=['faithful']),
    H('koops.c', {'MODE': 5, 'N': 1}, {'N': 2}, time=30, name='oops', cover=['faithful']),
    H('koops.c', {'MODE': 6, 'N': 2}, {'N': 3}, name='taint', cover=['taint']),
    H('koops.c', {'MODE': 7, 'N': 1}, {'N': 3}, name='modules', cover=['modules']),
 ]),
 'C10': dict(harnesses=[H('cmp.c', dict(T=t, MODE=m, N=n), dict(N=tn), name='%s-%s' % (T[t], w), cover=c)
    for t in range(7) for m, n, tn, w, c in ((0, 1, 2, 'pairs', ['equal', 'different']), (1, 1, 2, 'triples', ['chain']), (2, 1, 3, 'match', ['equal', 'different']))]),
 'C11': dict(harnesses=[H('tcmp.c', dict(T=t, MODE=0, NFR=1 if t == 2 else 2), dict(NFR=2 if t == 2 else 3), name=T[t] + '-pairs', cover=['equal', 'different']) for t in range(7)]
    + [H('tcmp.c', dict(T=t, MODE=1, NFR=1), dict(NFR=2), name=T[t] + '-triples', cover=['chain']) for t in range(7)]
    + [H('tcmp.c', dict(T=4, MODE=2, NFR=1), name='java-traces', cover=['equal', 'different']), H('tcmp.c', dict(MODE=3), name='packages', cover=['equal', 'different']),
       H('tcmp.c', dict(MODE=4), name='package-order', cover=['chain']), H('tcmp.c', dict(MODE=5), name='verification', cover=['chain'])]),
 'C12': dict(harnesses=[H('dup.c', dict(T=t, MODE=0, NFR=3), dict(NFR=4), name=T[t] + '-frames', cover=['siblings', 'single']) for t in range(7)]
    + [H('dup.c', dict(T=t, MODE=1, NFR=3), dict(NFR=3), name=T[t] + '-threads', cover=['thread']) for t in (0, 1, 4)]
    + [H('dup.c', dict(T=t, MODE=2, NFR=2), dict(NFR=3), name=T[t] + '-stacktrace', cover=['stacktrace']) for t in range(7)]
    + [H('dup.c', dict(T=1, MODE=3), name='libraries', cover=['libs'])]),
 'C13': dict(harnesses=[H('surgery.c', dict(T=t, MODE=0, NFR=3), dict(NFR=5), name=T[t] + '-remove', cover=['removed', 'missing']) for t in range(7)]
    + [H('surgery.c', dict(T=t, MODE=1, NFR=3), dict(NFR=5), name=T[t] + '-own-remove', cover=['removed', 'missing']) for t in (1, 2, 4)]
    + [H('surgery.c', dict(T=t, MODE=2, NFR=3), dict(NFR=5), name=T[t] + '-limit', cover=['limited']) for t in (1, 4)]
    + [H('surgery.c', dict(T=t, MODE=3, NFR=3), dict(NFR=4), name=T[t] + '-threads', cover=['threads']) for t in (0, 1, 4)]
    + [H('surgery.c', dict(T=t, MODE=4, NFR=2), dict(NFR=4), name=T[t] + '-append', cover=['appended']) for t in range(7)]),
 'C14': dict(harnesses=[H('json.c', dict(T=t, MODE=0, L=1 if t == 2 else 2), dict(L=2 if t == 2 else 3), name=T[t] + '-wellformed', cover=['wellformed']) for t in JT]),
 'C15': dict(harnesses=[H('json.c', dict(T=t, MODE=1, L=1), dict(L=2), name=T[t] + '-strings', cover=['roundtrip']) for t in JT]
    + [H('json.c', dict(T=t, MODE=2, L=1), name=T[t] + '-numbers', cover=['roundtrip']) for t in JT]),
 'C16': dict(harnesses=[H('json.c', dict(T=t, MODE=3, L=1), name=T[t] + '-types', cover=['loaded', 'refused']) for t in JT]
    + [H('json.c', dict(T=t, MODE=4, L=4), dict(L=6), name=T[t] + '-anytext', cover=['loaded', 'refused']) for t in JT]),
 'C17': dict(harnesses=[H('dist.c', dict(T=t, MODE=0, NFR=n, MAXSUM=2 * n), dict(NFR=n + 1, MAXSUM=2 * n + (2 if n < 4 else 1)), name=T[t] + '-pairs', cover=['pair', 'equal']) for t, n in ((0, 3), (1, 3), (2, 4), (3, 3), (4, 3), (5, 3), (6, 3))]),
 'C18': dict(harnesses=[H('dist.c', dict(T=t, MODE=1, NFR=n, MAXSUM=2 * n), dict(NFR=n + 1, MAXSUM=2 * n + 1), name=T[t] + '-edit', cover=['edits', 'transpositions']) for t, n in ((1, 2), (2, 4))]
    + [H('dist.c', dict(T=t, MODE=2, NFR=n, MAXSUM=2 * n), dict(NFR=n + 1, MAXSUM=2 * n + 1), name=T[t] + '-jaccard', cover=['jaccard']) for t, n in ((1, 2), (3, 4))]
    + [H('dist.c', dict(T=0, MODE=3, MAXSUM=8), name='types', cover=['other'])]),
 'C19': dict(harnesses=[H('dmat.c', dict(MODE=0, N=5), dict(N=9), name='cells', cover=['same', 'apart']), H('dmat.c', dict(MODE=1, N=6), dict(N=10), name='split', cover=['parts', 'one']),
       H('dmat.c', dict(MODE=2, N=4), dict(N=6), name='merge', cover=['merged']), H('dmat.c', dict(MODE=3, N=4), dict(N=6), name='refuse', cover=['refused']), H('dmat.c', dict(MODE=7, N=6), dict(N=8), name='dup', cover=['dup'])]),
 'C20': dict(harnesses=[H('dmat.c', dict(MODE=4, N=3, KB=4), dict(KB=10), name='average3', cover=['average']), H('dmat.c', dict(MODE=4, N=4, KB=1), dict(KB=2), name='average4', cover=['average'], thorough_only=True, ttime=1500), H('dmat.c', dict(MODE=4, N=5, KB=2, GROUPS=1), dict(N=6), name='groups', cover=['average']), H('dmat.c', dict(MODE=5, N=3), dict(N=4), name='any', cover=['hierarchy']), H('dmat.c', dict(MODE=6, N=4), dict(N=6), name='cut', cover=['cut', 'none'])]),
 'C22': dict(harnesses=[H('norm_koops.c', dict(NFR=2, L=2), dict(NFR=3, L=4), name='koops', cover=['removed', 'kept'])]),
 'C21': dict(harnesses=[H('norm.c', dict(T=t, MODE=3, NFR=3), dict(NFR=4), name=T[t] + '-threads', cover=['removed', 'kept']) for t in (0, 1)]
    + [H('norm.c', dict(T=t, MODE=4), name=T[t] + '-names', cover=['kept']) for t in (0, 1)]
    + [H('norm.c', dict(T=1, MODE=5, NFR=3), dict(NFR=4), name='main', cover=['removed', 'kept']), H('norm.c', dict(T=1, MODE=6, NFR=2), dict(NFR=3), name='paired', cover=['paired', 'unpaired']), H('norm.c', dict(T=1, MODE=7), name='stacktrace', cover=['stacktrace'])]),
 'C36': dict(harnesses=[H('norm.c', dict(T=t, MODE=0, N=6), dict(N=9), name=T[t] + '-any', cover=['removed', 'kept']) for t in (0, 1)]
    + [H('norm.c', dict(T=t, MODE=1), name=T[t] + '-listed', cover=['removed', 'kept']) for t in (0, 1)]
    + [H('norm.c', dict(T=t, MODE=2), name=T[t] + '-near', cover=['removed', 'kept']) for t in (0, 1)]),
 'C28': dict(harnesses=[H('crash.c', dict(T=t, MODE=0, NTH=3), dict(NTH=4), name=T[t] + '-thread', cover=['found', 'none']) for t in (0, 1)] + [H('crash.c', dict(T=1, MODE=1, NTH=2), dict(NTH=3), name='gdb-frame', cover=['frame', 'empty'])]),
 'C29': dict(harnesses=[H('crash.c', dict(T=1, MODE=2, NFR=2), dict(NFR=3), name='thread', cover=['known', 'unknown']), H('crash.c', dict(T=1, MODE=3, NFR=2), dict(NFR=3), name='whole', cover=['known', 'unknown']), H('crash.c', dict(T=1, MODE=4, NFR=6), dict(NFR=8), name='weighted', cover=['weighted', 'plain']), H('javaq.c', dict(NFR=2), dict(NFR=3), name='java', cover=['known', 'unknown'])]),
 'C30': dict(harnesses=[H('maps.c', dict(MODE=0, N=5), dict(N=7), name='lib-any', cover=['parsed', 'refused']), H('maps.c', dict(MODE=1, K=2), dict(K=3), name='lib-disturb', cover=['parsed', 'refused']), H('maps.c', dict(MODE=2, N=2, L=2), dict(N=3, L=3), name='lib-rows', cover=['rows']),
       H('maps.c', dict(MODE=3, N=2), dict(N=3), name='lib-find', cover=['found', 'none']), H('maps.c', dict(MODE=4, N=6), dict(N=8), name='mod-any', cover=['parsed', 'refused']), H('maps.c', dict(MODE=5, K=2), dict(K=3), name='mod-disturb', cover=['parsed', 'refused']),
       H('maps.c', dict(MODE=6, N=2, L=2), dict(N=3, L=3), name='mod-rows', cover=['rows']), H('maps.c', dict(MODE=7, N=2), dict(N=3), name='mod-find', cover=['found', 'none'])]),
 'C24': dict(harnesses=[H('rpm.c', dict(MODE=0, N=6), dict(N=9), name='nvr', cover=['parsed', 'refused']), H('rpm.c', dict(MODE=1, N=7), dict(N=9), name='nevra', cover=['parsed', 'refused']), H('rpm.c', dict(MODE=2, L=2), dict(L=3), name='inverse', cover=['plain', 'epoch'])]),
 'C25': dict(harnesses=[H('rpm.c', dict(MODE=3, N=3, NAMES=2), dict(N=3, NAMES=3), name='sort', cover=['sorted']), H('rpm.c', dict(MODE=4, N=3, NAMES=2), dict(N=3, NAMES=3), name='uniq', cover=['merged', 'distinct']), H('rpm.c', dict(MODE=4, N=5, NAMES=1, LONG=1), dict(N=6), name='uniq-long', cover=['merged', 'distinct']), H('rpm.c', dict(MODE=3, N=5, NAMES=1, LONG=1), dict(N=6), name='sort-long', cover=['sorted']), H('rpm.c', dict(MODE=5, N=2, NAMES=1), dict(N=3), name='append', cover=['appended'])]),
 'C26': dict(harnesses=[H('rpm.c', dict(MODE=6, N=2, L=1), dict(N=3, L=2), name='rows', cover=['rows']), H('rpm.c', dict(MODE=7, N=5), dict(N=7), name='any', cover=['parsed', 'refused']), H('rpm.c', dict(MODE=8, K=2), dict(K=3), name='disturb', cover=['parsed', 'refused'])]),
 'C23': dict(harnesses=[H('hash.c', dict(T=t, MODE=0, NFR=2, L=1), dict(NFR=3, L=2), name=T[t] + '-duphash', cover=['hash']) for t in range(7)]
    + [H('hash.c', dict(T=t, MODE=1, NFR=2, L=1), dict(NFR=3), name=T[t] + '-normalised', cover=['normalised', 'plain']) for t in (0, 1, 2)]
    + [H('hash.c', dict(T=t, MODE=2, NFR=1, L=1), dict(NFR=2, L=2), name=T[t] + '-bthash', cover=['hash']) for t in range(7)]),
 'C27': dict(harnesses=[H('os.c', dict(MODE=0, N=6), dict(N=8), name='rows', cover=['rows', 'none']), H('os.c', dict(MODE=1, N=4), dict(N=6), name='context', cover=['rows', 'none']), H('os.c', dict(MODE=2, N=2, L=2), dict(N=3, L=3), name='keys', cover=['rawhide', 'known', 'unknown']),
       H('os.c', dict(MODE=3, L=2), dict(L=4), name='sentence', cover=['release', 'refused']), H('os.c', dict(MODE=4, N=6), dict(N=9), name='release', cover=['release', 'refused'])]),
 'C37': dict(harnesses=[H('js_platform.c', dict(T=6, MODE=0), name='numbers', cover=['both', 'one', 'none']), H('js_platform.c', dict(T=6, MODE=1, N=8, K=1), dict(N=12, K=2), name='names', cover=['known', 'unknown']), H('js_platform.c', dict(T=6, MODE=2), name='json', cover=['known', 'unknown']),
       H('js_platform.c', dict(T=6, MODE=3, K=1), dict(K=2), name='load', cover=['loaded', 'refused']), H('js_platform.c', dict(T=6, MODE=4, K=1), dict(K=2), name='parse', cover=['parsed', 'frame'])]),
 'C33': dict(harnesses=[H('report.c', dict(T=t, MODE=0, L=1), dict(L=2), name=T[t] + '-roundtrip', cover=['roundtrip', 'stacktrace']) for t in (0, 2, 3, 4, 5, 6)]
    + [H('report.c', dict(MODE=1, L=10), dict(L=11), name='types', cover=['type', 'unknown', 'name']), H('report.c', dict(MODE=2, L=1), name='illtyped', cover=['loaded', 'refused']), H('report.c', dict(MODE=3, L=3), dict(L=4), name='text', cover=['loaded', 'refused']), H('report.c', dict(MODE=4, L=1), dict(L=2), name='parts', cover=['os', 'packages'])]),
 'C34': dict(harnesses=[H('file.c', dict(MODE=0, N=4), dict(N=8), libdefs=IO, name='read', cover=['read', 'failed']), H('file.c', dict(MODE=1, N=4), dict(N=8), libdefs=IO, name='write', cover=['written', 'failed']),
       H('file.c', dict(MODE=2), libdefs=IO, name='big', cover=['huge']), H('file.c', dict(MODE=3, N=4), dict(N=8), libdefs=IO, name='again', cover=['again'])]),
 'C38': dict(harnesses=[H('abrt.c', dict(MODE=0, PAIRS=2), dict(PAIRS=4), libdefs=IO, name='files', cover=['report', 'refused']), H('abrt.c', dict(MODE=1, L=2), dict(L=3), libdefs=IO, name='contents', cover=['report', 'refused']), H('abrt.c', dict(MODE=2, K=1), dict(K=2), libdefs=IO, name='backtrace', cover=['report', 'refused']),
       H('abrt.c', dict(MODE=3, K=2), dict(K=3), libdefs=IO, name='types', cover=['known', 'unknown']), H('abrt.c', dict(MODE=4), libdefs=IO + ('-Dputs=vf_puts',), name='print', cover=['printed', 'refused']), H('abrt.c', dict(MODE=5), libdefs=IO, name='parts', cover=['packages', 'refused'])]),
 'C39': dict(harnesses=[H('render.c', dict(T=t, MODE=0, L=1), dict(L=3), name=T[t] + '-frame', cover=['frame']) for t in range(7)]
    + [H('render.c', dict(T=t, MODE=1, L=1), dict(L=2), name=T[t] + '-reason', cover=['reason']) for t in range(7)]
    + [H('render.c', dict(T=t, MODE=2, NFR=2), dict(NFR=3), name=T[t] + '-short', cover=['all', 'limited']) for t in range(7)]
    + [H('render.c', dict(T=1, MODE=3, NFR=2, L=1), dict(NFR=3), name='gdb-text', cover=['text'])]
    + [H('render.c', dict(T=t, MODE=4, NFR=2, L=2), dict(NFR=3), name=T[t] + '-functions', cover=['list', 'empty']) for t in (1, 4)]
    + [H('render.c', dict(T=4, MODE=5, NFR=3, L=2), dict(NFR=4), name='java-text', cover=['thread']), H('render.c', dict(T=1, MODE=6, NFR=1), dict(NFR=2), name='gdb-libraries', cover=['named', 'left'])]),
 'C40': dict(harnesses=[H('dispatch.c', dict(T=t, MODE=0, L=1), dict(L=2), name=T[t] + '-frames', cover=['compared', 'mixed', 'linked']) for t in range(7)]
    + [H('dispatch.c', dict(T=t, MODE=1, NFR=2), dict(NFR=3), name=T[t] + '-threads', cover=['walked', 'copied', 'removed', 'foreign', 'compared', 'normal'] + (['normalised'] if t < 3 else [])) for t in range(7)]
    + [H('dispatch.c', dict(T=t, MODE=2), name=T[t] + '-stacktraces', cover=['crash', 'calm']) for t in range(7)]
    + [H('dispatch.c', dict(T=t, MODE=3, N=2), dict(N=4), name=T[t] + '-parse', cover=['parsed'] + (['refused'] if t != 2 else [])) for t in range(7)]
    + [H('dispatch.c', dict(T=t, MODE=4, NFR=1, L=int(t != 2)), dict(NFR=2), name=T[t] + '-json', cover=['json']) for t in range(7)]),
 'C44': dict(harnesses=[H('create.c', dict(MODE=0, NTH=2, NFR=2, NMOD=2), dict(NFR=3), name='fidelity', cover=['inside', 'outside', 'none']), H('create.c', dict(MODE=1, K=1), dict(K=2), name='any', cover=['made', 'refused'])]),
 'C42': dict(harnesses=[H('code.c', dict(MODE=0, N=4, M=3), dict(N=6, M=4), name='mnemonic', cover=['listed', 'other']), H('code.c', dict(MODE=1, N=4), dict(N=6), name='operand', cover=['address', 'none']), H('code.c', dict(MODE=2, N=3), dict(N=4), name='callees', cover=['calls', 'call', 'none']),
       H('code.c', dict(MODE=3, N=3), dict(N=5), name='text', cover=['text']), H('code.c', dict(MODE=4, N=2), dict(N=3), name='lookup', cover=['found', 'none']), H('code.c', dict(MODE=5, N=2), dict(N=3), name='json', cover=['json']),
       H('code.c', dict(MODE=6, NC=2), dict(NC=3), name='callgraph', cover=['failed', 'computed', 'extended']), H('code.c', dict(MODE=7, N=3), dict(N=5), name='graph-lookup', cover=['found', 'none'])]),
 'C41': dict(harnesses=[H('unwind.c', dict(MODE=0, NFR=2), dict(NFR=4), libdefs=IO + DW, name='core', cover=['unwound', 'failed']), H('unwind.c', dict(MODE=1), libdefs=IO + DW, name='signal', cover=['signal', 'none']), H('unwind.c', dict(MODE=2), libdefs=IO + DW, name='long', cover=['long']), H('unwind.c', dict(MODE=3, NFR=2), dict(NFR=3), libdefs=IO + DW, name='hook', cover=['unwound', 'text', 'failed', 'given up']),
       H('unwind.c', dict(MODE=4), libdefs=IO + DW, name='from-gdb', cover=['resolved', 'long', 'failed']), H('unwind.c', dict(MODE=5), libdefs=IO + DW, name='directory', cover=['core', 'gdb', 'failed'])]),
 'C45': dict(harnesses=[H('rpmdb.c', dict(MODE=0, NH=2), dict(NH=3), libdefs=RPM, name='by-name', cover=['packages', 'nothing', 'failed']), H('rpmdb.c', dict(MODE=1, NH=2), dict(NH=3), libdefs=RPM, name='by-path', cover=['packages', 'nothing', 'failed'])]),
 'C46': dict(harnesses=[H('elf.c', dict(MODE=0, NS=2), dict(NS=3), libdefs=IO + EL, name='plt', cover=['table', 'empty', 'failed']), H('elf.c', dict(MODE=1), libdefs=IO + EL, name='eh-frame', cover=['entries', 'none', 'failed'])]),
 'C43': dict(harnesses=[H('py.c', dict(MODE=0), libdefs=PY, name='attributes', cover=['set', 'refused', 'other'])] + [H('py.c', dict(MODE=1, T=t, STEPS=2), dict(STEPS=3), libdefs=PY, name='edits-' + n, cover=['raises', 'removed']) for t, n in enumerate('core gdb koops python java ruby js'.split())] + [H('py.c', dict(MODE=2, T=t, STEPS=2), dict(STEPS=3), libdefs=PY, name='report-' + n, cover=['json', 'refused']) for t, n in enumerate('core gdb koops python java ruby js'.split())] + [H('py.c', dict(MODE=3), libdefs=PY, name='text', cover=['text', 'json', 'refused']), H('py.c', dict(MODE=4, T=1, STEPS=2), dict(STEPS=3), libdefs=PY, name='methods', cover=['normalize', 'limit', 'libnames', 'crash', 'address']), H('py.c', dict(MODE=5), libdefs=PY, name='distances', cover=['refused', 'parts', 'distance', 'dendrogram'])]),
}
