import glob, os, re
def get(name, REPO, V):
    if name in ('asclite', 'asclite-codec'):
        d = REPO + '/src/asclite/core'
        srcs = [(s, ['-Dmain=tool_main'] if s.endswith('/main.cpp') else []) for s in sorted(glob.glob(d + '/*.cpp') + ([] if name == 'asclite-codec' else glob.glob(d + '/lzma/*.c')))]
        return dict(dir=d, srcs=srcs, inc=[V + '/rt/stubs', d], ninc=[d], cxx=True, hashdirs=[d],
                    bsrcs=[V + '/rt/rt.cpp'], bflags=['-std=c++17', '-fno-exceptions', '-fno-threadsafe-statics', '-D_GLIBCXX_EXTERN_TEMPLATE=0'], nflags=['-std=c++17'])
    if name == 'rfilter1':
        d = REPO + '/src/rfilter1'
        return dict(dir=d, srcs=[(d + '/rfilter1.c', ['-Dmain=tool_main', '-DNEED_STRCMP=1'])], inc=[d], cxx=False, hashdirs=[d, d + '/include'])
    raise KeyError(name)
