"""Builds of the simulators, always from /repo's working tree."""
import concurrent.futures
import glob
import os
import shutil
import subprocess
import sysconfig

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SIM = os.path.join(HERE, 'sim')


class BuildError(Exception):
    pass


SAN = ('-fsanitize=address,bounds,integer-divide-by-zero,null,return,unreachable '
       '-fno-sanitize-recover=all -fno-omit-frame-pointer')
WRAP = '-Wl,--wrap=malloc,--wrap=calloc,--wrap=realloc,--wrap=free,--wrap=aligned_alloc'
ENGINE = ['main', 'ref']
CODEC = ['c_dec', 'c_enc', 'c_ctx', 'c_cpp', 'c_encm', 'refenc', 'alloc']

VARIANTS = {
    'ship': dict(what='gcc -std=c11 -O3 -ffast-math, as shipped', cc='gcc', cxx='g++',
                 lib='-std=c11 -O3 -ffast-math -g1', sim='-std=c++17 -O2 -g1 -DSIM_WRAP_MALLOC', ld=WRAP,
                 sections=True, alt=True, srcs=ENGINE + CODEC),
    'asan': dict(what='clang -O1, AddressSanitizer, bounds, null and division checks', cc='clang', cxx='clang++',
                 lib='-std=c11 -O1 -g ' + SAN, sim='-std=c++17 -O1 -g ' + SAN, ld='', alt=True,
                 srcs=ENGINE + CODEC),
    'clang': dict(what='clang -std=c11 -O3 -ffast-math, the shipped flags with the other compiler', cc='clang', cxx='g++',
                  lib='-std=c11 -O3 -ffast-math -g1', sim='-std=c++17 -O2 -g1 -DSIM_WRAP_MALLOC', ld=WRAP,
                  srcs=ENGINE + ['c_dec', 'c_enc', 'c_encm', 'refenc', 'alloc']),
    'threads': dict(what='clang -O1 with a preemption point at every branch, load and store of the library',
                    cc='clang', cxx='clang++',
                    lib='-std=c11 -O1 -g -fno-vectorize -fno-slp-vectorize '
                        '-fsanitize-coverage=trace-pc-guard,trace-loads,trace-stores',
                    sim='-std=c++17 -O2 -g1', ld='', srcs=ENGINE + ['c_thr']),
}


STRICT = '-std=c11 -O2 -g1 -fno-fast-math -ffp-contract=off'


def features(spec, repo, d):
    """The full library and three reduced builds with prefixed symbols."""
    inc = f'-I{repo}/include'
    comp, objs = [], []
    for pre, defs in (('', ''), ('p0h0_', '-DLC3_PLUS=0 -DLC3_PLUS_HR=0'), ('p1h0_', '-DLC3_PLUS_HR=0'),
                      ('p0h1_', '-DLC3_PLUS=0')):
        for f in sorted(glob.glob(repo + '/src/*.c')):
            o = f'{pre}lib_' + os.path.basename(f)[:-2] + '.o'
            comp.append(f'gcc {STRICT} {defs} {inc} -c {f} -o {o}')
            objs.append((pre, o))
    for s in spec['srcs']:
        comp.append(f'g++ {spec["sim"]} {inc} -I{SIM} -c {SIM}/{s}.cc -o sim_{s}.o')
    link = []
    full = ' '.join(o for p, o in objs if not p)
    for pre in ('p0h0_', 'p1h0_', 'p0h1_'):
        mine = ' '.join(o for p, o in objs if p == pre)
        # rename what the library itself defines, not what it imports
        link.append(f"nm -g --defined-only {mine} | awk 'NF==3 {{print $3, \"{pre}\" $3}}' | sort -u > {pre}syms && "
                    f'for o in {mine}; do objcopy --redefine-syms={pre}syms $o; done')
    link.append(f"g++ {spec['sim']} " + ' '.join(o for _, o in objs) + ' '
                + ' '.join(f'sim_{s}.o' for s in spec['srcs']) + ' -lm -lpthread -o sim')
    return comp, link


VARIANTS['features'] = dict(what='four builds (full, LC3_PLUS=0, LC3_PLUS_HR=0, both) in one program, gcc -O2 with '
                            'strict floating point', sim='-std=c++17 -O2 -g1', srcs=ENGINE + ['c_feat'], recipe=features)


TOOLWRAP = '-Wl,--wrap=fopen,--wrap=fopen64,--wrap=clock_gettime'


def tools(spec, repo, d):
    """The library and the main() of every command line tool."""
    inc = f'-I{repo}/include'
    comp, objs = [], []
    for f in sorted(glob.glob(repo + '/src/*.c')):
        objs.append('lib_' + os.path.basename(f)[:-2] + '.o')
        comp.append(f"{spec['cc']} {spec['lib']} {inc} -c {f} -o {objs[-1]}")
    for f in sorted(glob.glob(repo + '/tools/*.c')):
        b = os.path.basename(f)[:-2]
        objs.append(f'tool_{b}.o')
        # renamed in the object: only main() returns 0 by itself; a symbol of
        # its own, by which clang names the string sections of the object
        comp.append(f"echo 'extern int tool_{b}; int tool_{b} = 0;' > tool_{b}.h && "
                    f"{spec['cc']} {spec['tool']} {inc} -include ./tool_{b}.h -c {f} -o {objs[-1]} && "
                    f'objcopy --redefine-sym main={b}_main {objs[-1]}')
    for s in spec['srcs']:
        objs.append(f'sim_{s}.o')
        comp.append(f"{spec['cxx']} {spec['sim']} {inc} -I{SIM} -c {SIM}/{s}.cc -o sim_{s}.o")
    return comp, [f"{spec['cxx']} {spec['sim']} {spec['ld']} {TOOLWRAP} {' '.join(objs)} -lm -lpthread -o sim"]


VARIANTS['tools'] = dict(what='library and command line tools, gcc -O3 -ffast-math, as shipped', cc='gcc', cxx='g++',
                         lib='-std=c11 -O3 -ffast-math -g1', tool='-std=c11 -O3 -ffast-math -g1',
                         sim='-std=c++17 -O2 -g1 -DSIM_WRAP_MALLOC', ld=WRAP, recipe=tools,
                         srcs=ENGINE + ['tool_host', 'c_tools', 'alloc'])
VARIANTS['tools-asan'] = dict(what='library and command line tools, clang -O1, AddressSanitizer, bounds and arithmetic '
                              'checks', cc='clang', cxx='clang++', lib='-std=c11 -O1 -g ' + SAN,
                              tool='-std=c11 -O1 -g -fsanitize=signed-integer-overflow,shift,float-cast-overflow ' + SAN,
                              sim='-std=c++17 -O1 -g ' + SAN, ld='', recipe=tools,
                              srcs=ENGINE + ['tool_host', 'c_tools', 'alloc'])


def python(spec, repo, d):
    """The Python module and tools on the shared library, in a simulator that
    also holds the C tools."""
    comp, link = tools(spec, repo, d)
    inc = f'-I{repo}/include'
    so = []
    for f in sorted(glob.glob(repo + '/src/*.c')):
        so.append('so_' + os.path.basename(f)[:-2] + '.o')
        comp.append(f"{spec['cc']} {spec['lib']} -fPIC -fvisibility=hidden {inc} -c {f} -o {so[-1]}")
    pyinc = sysconfig.get_paths()['include']
    comp = [c.replace('-c ' + SIM + '/c_py.cc', f'-I{pyinc} -c {SIM}/c_py.cc') for c in comp]
    comp.append(f'cp -r {repo}/python py && mkdir driver && cp {SIM}/py/driver.py driver/')
    comp.append(f"{spec['cc']} -O1 -g1 -fno-builtin -fPIC -shared -fvisibility=hidden {SIM}/py_shim.c -o libshim.so")
    comp.append("echo '{ local: lc3_hr_*; };' > old.map")
    so = ' '.join(so)
    return comp, [f"{spec['cc']} -shared {so} -lm -o liblc3.so",
                  f"{spec['cc']} -shared -Wl,--version-script=old.map {so} -lm -o liblc3-old.so",
                  link[0].replace(' -o sim', ' ' + pylib() + ' -o sim')]


def pylib():
    v = sysconfig.get_config_var('LDVERSION')
    return f"-L{sysconfig.get_config_var('LIBDIR')} -L{sysconfig.get_config_var('LIBPL')} -lpython{v} -ldl"


VARIANTS['python'] = dict(what='shared library gcc -O3 -ffast-math, Python module and tools in an embedded interpreter',
                          cc='gcc', cxx='g++', lib='-std=c11 -O3 -ffast-math -g1', tool='-std=c11 -O3 -ffast-math -g1',
                          sim='-std=c++17 -O2 -g1', ld='', recipe=python, srcs=ENGINE + ['tool_host', 'c_py', 'alloc'])


def describe(variant):
    return VARIANTS[variant]['what']


def command(variant, build):
    return [os.path.join(build, variant, 'sim')]


def sh(cmd, cwd):
    p = subprocess.run(cmd, shell=True, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                       errors='replace')
    if p.returncode:
        err = [l for l in p.stdout.splitlines() if 'error' in l or 'undefined' in l]
        raise BuildError('\n'.join([cmd[:300]] + (err or p.stdout.splitlines())[:12]))


def build(variants, repo, build):
    """Compile everything in parallel, then link."""
    compile_cmds, then = [], []
    for v in variants:
        d = os.path.join(build, v)
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        c, t = recipe(v, VARIANTS[v], repo, d)
        compile_cmds += [(x, d) for x in c]
        then.append((t, d))
    with concurrent.futures.ThreadPoolExecutor(8) as ex:
        # the long ones first
        compile_cmds.sort(key=lambda c: 'clang++' not in c[0])
        for f in [ex.submit(sh, c, d) for c, d in compile_cmds]:
            f.result()

        def finish(steps, d):
            for s in steps:
                sh(s, d)
        for f in [ex.submit(finish, t, d) for t, d in then]:
            f.result()


def recipe(v, spec, repo, d):
    if 'recipe' in spec:
        return spec['recipe'](spec, repo, d)
    inc = f'-I{repo}/include'
    comp, libo = [], []
    for f in sorted(glob.glob(repo + '/src/*.c')):
        o = 'lib_' + os.path.basename(f)[:-2] + '.o'
        libo.append(o)
        comp.append(f"{spec['cc']} {spec['lib']} {inc} -c {f} -o {o}"
                    + (f' && objcopy --rename-section .data=lc3data --rename-section .bss=lc3bss {o}'
                       if spec.get('sections') else ''))
    simo = []
    for s in spec['srcs']:
        simo.append(f'sim_{s}.o')
        comp.append(f"{spec['cxx']} {spec['sim']} {inc} -I{SIM} -c {SIM}/{s}.cc -o sim_{s}.o")
    objs = ' '.join(libo + simo)
    link = [f"{spec['cxx']} {spec['sim']} {spec['ld']} {objs} -lm -lpthread -o sim"]
    if spec.get('alt'):
        link.append(f"{spec['cxx']} {spec['sim']} {spec['ld']} -no-pie -Wl,-Ttext-segment=0x10000000 {objs} "
                    '-lm -lpthread -o sim-alt')
    return comp, link
