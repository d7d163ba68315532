"""C15, C19 (Python tools) and C22 inside the simulator: executes the
operations of one scenario.  `_sim` is the simulator."""
import array
import builtins
import ctypes
import ctypes.util
import errno
import gc
import io
import os
import random
import runpy
import struct
import sys
import traceback

import _sim

DIR = _sim.dir()
LIBS = [DIR + '/liblc3.so', DIR + '/liblc3-old.so']
SHIM = DIR + '/libshim.so'

# --- What the module finds on the system ---------------------------------------

present = {'lc3': LIBS[0], 'c': SHIM}
_dlopen = ctypes._dlopen


def find_library(name):
    return present.get(name)


def dlopen(name, *a, **k):
    # the C library, whatever it is called, is the simulated one
    if name is None or os.path.basename(str(name)).startswith('libc.'):
        name = SHIM
    return _dlopen(name, *a, **k)


ctypes.util.find_library = find_library
ctypes._dlopen = dlopen
sys.path.insert(0, DIR + '/py')
import lc3                                              # noqa: E402

shim = ctypes.CDLL(SHIM)
for n, res, args in (('sim_live', ctypes.c_long, []), ('sim_calls', ctypes.c_long, []), ('sim_bad', ctypes.c_long, []),
                     ('sim_failed', ctypes.c_long, []), ('sim_fail_at', None, [ctypes.c_long])):
    f = getattr(shim, n)
    f.restype, f.argtypes = res, args

# --- The library called directly ---------------------------------------------------

L = ctypes.CDLL(LIBS[0])
P, I, B = ctypes.c_void_p, ctypes.c_int, ctypes.c_bool
for n, res, args in (('lc3_hr_encoder_size', ctypes.c_uint, [B, I, I]), ('lc3_hr_decoder_size', ctypes.c_uint, [B, I, I]),
                     ('lc3_hr_setup_encoder', P, [B, I, I, I, P]), ('lc3_hr_setup_decoder', P, [B, I, I, I, P]),
                     ('lc3_encode', I, [P, I, P, I, I, P]), ('lc3_decode', I, [P, P, I, I, P, I]),
                     ('lc3_hr_frame_samples', I, [B, I, I]), ('lc3_hr_delay_samples', I, [B, I, I]),
                     ('lc3_hr_frame_block_bytes', I, [B, I, I, I, I]), ('lc3_hr_resolve_bitrate', I, [B, I, I, I])):
    f = getattr(L, n)
    f.restype, f.argtypes = res, args

FMT = {16: (0, 2), 24: (2, 3), None: (3, 4)}


def buffer(n):
    # 8 bytes aligned, with room
    return (ctypes.c_int64 * ((n + 15) // 8))()


class Ref:
    """One C codec per channel"""

    def __init__(self, enc, hr, us, rate, pcm, nch):
        self.us, self.rate, self.pcm, self.hr, self.nch = us, rate, pcm, hr, nch
        size, setup = ((L.lc3_hr_encoder_size, L.lc3_hr_setup_encoder) if enc else
                       (L.lc3_hr_decoder_size, L.lc3_hr_setup_decoder))
        self.mem = [buffer(size(hr, us, pcm)) for _ in range(nch)]
        self.h = [setup(hr, us, rate, pcm, ctypes.addressof(m)) for m in self.mem]
        self.ok = all(self.h)
        self.ns = L.lc3_hr_frame_samples(hr, us, pcm)

    def encode(self, pcm, nbytes, depth):
        f, sb = FMT[depth]
        need = self.ns * self.nch * sb
        pcm = (pcm + bytes(need))[:need]
        buf = ctypes.create_string_buffer(pcm, len(pcm) + 8)
        out = b''
        for c, h in enumerate(self.h):
            n = nbytes // self.nch + (c < nbytes % self.nch)
            o = ctypes.create_string_buffer(max(1, n))
            if L.lc3_encode(h, f, ctypes.addressof(buf) + c * sb, self.nch, n, o):
                _sim.broken('reference encoder refuses %d bytes' % n)
            out += o.raw[:n]
        return out

    def decode(self, data, depth):
        f, sb = FMT[depth]
        buf = ctypes.create_string_buffer(self.ns * self.nch * sb + 8)
        p, res = 0, []
        for c, h in enumerate(self.h):
            n = len(data) // self.nch + (c < len(data) % self.nch)
            res.append(L.lc3_decode(h, data[p:p + n], n, f, ctypes.addressof(buf) + c * sb, self.nch))
            p += n
        return buf.raw[:self.ns * self.nch * sb], res


def limits(hr, us, rate):
    return (L.lc3_hr_frame_block_bytes(hr, us, rate, 1, 0), L.lc3_hr_frame_block_bytes(hr, us, rate, 1, 0x7fffffff))


class Sound:
    """Interleaved audio, seeded"""

    def __init__(self, kind, seed):
        self.r, self.kind, self.t = random.Random(seed), kind, 0

    def frame(self, n, depth):
        r, k = self.r, self.kind % 6
        top = 32767 if depth == 16 else 8388607
        if k == 0:
            v = [r.uniform(-1, 1) for _ in range(n)]
        elif k == 1:
            v = [0.0] * n
        elif k == 2:
            v = [1.0] * n
        elif k == 3:
            import math
            v = [.7 * math.sin((self.t + i) * .05) for i in range(n)]
        elif k == 4:
            v = [(-1.0, 1.0)[(self.t + i) // 37 & 1] for i in range(n)]
        else:
            v = [r.uniform(-1, 1) if r.random() < .01 else 0.0 for i in range(n)]
        self.t += n
        if depth is None:
            return struct.pack('=%df' % n, *v)
        if depth == 16:
            return struct.pack('=%dh' % n, *[int(x * top) for x in v])
        return b''.join((int(x * top) & 0xffffff).to_bytes(3, 'little') for x in v)


def box(raw, depth, kind):
    """The input in one of the types the module takes"""
    k = kind % 5
    if depth is None and k >= 2:
        v = array.array('f', raw)
        return (list(v), (x for x in v), v)[k - 2]
    return (bytes, bytearray, memoryview, bytes, bytearray)[k](raw)


# --- C15 -----------------------------------------------------------------------------

GONE = object()


def parse(text):
    cfg, ops = {}, []
    for line in text.split('\n'):
        w = line.split()
        if w[:1] == ['cfg']:
            cfg[w[1]] = int(w[2])
        elif w[:1] == ['op']:
            ops.append((w[1], [int(x) for x in w[2:]]))
    return cfg, ops


def arg(a, i, d=0):
    return a[i] if i < len(a) else d


ERRORS = (lc3.BaseError, MemoryError)


class Obj:
    pass


def expect_error(what, f, kinds=(lc3.InvalidArgumentError,)):
    try:
        f()
    except kinds:
        return
    except Exception as e:
        _sim.fail('wrong-error', '%s raises %s' % (what, type(e).__name__))
    _sim.fail('no-error', '%s raises nothing' % what)


def call(what, f):
    try:
        return f()
    except Exception as e:
        _sim.fail('refused', '%s raises %s: %s' % (what, type(e).__name__, str(e)[:80]))


def new(objs, k, a):
    idn, us, rate, nch, hr, pcm, fail, lib, sig = [arg(a, i) for i in range(9)]
    drop(objs, idn)
    enc, hr, nch = k == 'new-enc', bool(hr), max(1, min(nch, 10))
    if lib and hr:
        lib = 0
    o = Obj()
    o.enc, o.us, o.rate, o.nch, o.hr, o.pcm = enc, us, rate, nch, hr, pcm or rate
    o.old = bool(lib)
    o.sound, o.r = Sound(sig, sig), random.Random(sig)
    live = shim.sim_live()
    shim.sim_fail_at(fail)
    name, kw = ('Encoder', 'input_sample_rate_hz') if enc else ('Decoder', 'output_sample_rate_hz')
    args = {kw: pcm} if pcm else {}
    if hr:
        args['hrmode'] = True
    if lib or sig & 1:
        args['libpath'] = LIBS[lib]
    if lib:
        _sim.fault('old-library')
    o.ref, o.obj, err = None, None, None
    if us in (2500, 5000, 7500, 10000) and rate in ((48000, 96000) if hr else (8000, 16000, 24000, 32000, 48000)):
        o.ref = Ref(enc, hr, us, rate, o.pcm, nch)
    try:
        if nch == 1 and sig & 2:
            o.obj = getattr(lc3, name)(us, rate, **args)
        elif sig & 4:
            o.obj = getattr(lc3, name)(frame_duration_us=us, sample_rate_hz=rate, num_channels=nch, **args)
        else:
            o.obj = getattr(lc3, name)(us, rate, nch, **args)
    except ERRORS as e:
        err = e
        if not isinstance(e, lc3.BaseError) and not shim.sim_failed():
            _sim.fail('wrong-error', '%s raises %s' % (name, type(e).__name__))
        err = type(e).__name__
    except Exception as e:
        _sim.fail('wrong-error', '%s(%d us, %d Hz, %d) raises %s: %s' % (name, us, rate, nch, type(e).__name__, str(e)[:80]))
    failed = shim.sim_failed()
    shim.sim_fail_at(0)
    o.broken = bool(failed)
    if failed:
        _sim.fault('allocation-failure')
    _sim.say('%s: %s, failed %d' % (name, err or 'object', failed))
    if not o.ref and (o.obj or err != 'InvalidArgumentError'):
        _sim.fail('no-error', '%s takes %d us, %d Hz' % (name, us, rate))
    if o.obj is None:
        gc.collect()
        if o.ref and o.ref.ok and not failed:
            _sim.fail('refused', '%s(%d us, %d Hz, %d channels) raises %s' % (name, us, rate, nch, err))
        if shim.sim_live() != live:
            _sim.fail('leak', 'a %s that was not made keeps %d blocks' % (name, shim.sim_live() - live))
        return
    if not o.ref.ok:
        o.broken = True
        _sim.fault('unsupported-rate')
    o.blocks = shim.sim_live() - live
    if not enc and not o.broken:
        o.sender = Ref(True, hr, us, rate, rate, nch)
    objs[idn] = o


def drop(objs, idn):
    o = objs.pop(idn, None)
    if o is None:
        return
    live, n = shim.sim_live(), o.blocks
    del o.obj
    gc.collect()
    if shim.sim_bad():
        _sim.fail('bad-free', 'memory released twice, or not allocated')
    if shim.sim_live() > live - n:
        _sim.fail('leak', 'the object is gone, %d of its %d blocks are not' % (shim.sim_live() - live + n, n))
    _sim.probe('object-released')


def encode(o, a):
    _, mode, kind, size, cut, dep = [arg(a, i) for i in range(6)]
    depth = (16, 24, None)[dep % 3]
    f, sb = FMT[depth]
    if o.broken:
        return expect_error('a call on an encoder without memory', lambda: o.obj.encode(bytes(o.nch * 1920), 100 * o.nch, 16), ERRORS)
    lo, hi = limits(o.hr, o.us, o.rate)
    n = o.ref.ns * o.nch
    if mode == 1:
        nb = size % (lo * o.nch) if size & 1 else hi * o.nch + 1 + size % 300
        _sim.fault('refused-call')
        return expect_error('encode into %d bytes' % nb, lambda: o.obj.encode(bytes(n * sb), nb, depth))
    if mode == 2:
        _sim.fault('refused-call')
        return expect_error('a bit depth of 20', lambda: o.obj.encode(bytes(n * 3), lo * o.nch, (20, 32, 8, 0)[size % 4]))
    if mode == 3:
        v = [0.0] * n
        v[size % n] = float('nan')
        _sim.fault('refused-call')
        return expect_error('not a number', lambda: o.obj.encode(v, lo * o.nch))
    nb = lo * o.nch + size % ((hi - lo) * o.nch + 1)
    raw = o.sound.frame(n, depth)
    cut = cut % 100
    if cut > 95:
        raw = raw + raw[:n // 5 * sb]
        _sim.fault('long-input')
    elif cut > 70:
        m = (0, 1, n - 1, n // 2, o.ref.ns, n - o.nch)[cut % 6] if cut % 2 else size % n
        raw = raw[:m * sb]
        _sim.fault('short-input')
    want = o.ref.encode(raw, nb, depth)
    got = call('encode of %d bytes at depth %s into %d bytes, %d channels' % (len(raw), depth, nb, o.nch), lambda: o.obj.encode(box(raw, depth, kind), nb, depth))
    _sim.ev(bytes(got))
    if type(got) is not bytes or got != want:
        _sim.fail('encode-differs', 'encode gives other frames than the library, %d channels, %d us, %d Hz, depth %s' % (o.nch, o.us, o.rate, depth))
    _sim.nontrivial()
    _sim.time(o.us)
    _sim.sig(hash((1, o.us, o.rate, o.pcm, o.hr, o.nch, dep % 3, kind % 5, len(raw) < n * sb)))


def decode(o, a):
    _, mode, kind, size, dmg, dep = [arg(a, i) for i in range(6)]
    depth = (16, 24, None)[dep % 3]
    if o.broken:
        return expect_error('a call on a decoder without memory', lambda: o.obj.decode(bytes(100 * o.nch), 16), ERRORS)
    lo, hi = limits(o.hr, o.us, o.rate)
    if mode == 1:
        n = size % (20 * o.nch) if size & 1 else hi * o.nch + 1 + size % 300
        _sim.fault('refused-call')
        return expect_error('decode of %d bytes for %d channels' % (n, o.nch), lambda: o.obj.decode(bytes(n), depth))
    if mode == 2:
        _sim.fault('refused-call')
        return expect_error('a bit depth of 20', lambda: o.obj.decode(bytes(lo * o.nch), (20, 32, 8, 0)[size % 4]))
    nb = lo * o.nch + size % ((hi - lo) * o.nch + 1)
    data = bytearray(o.sender.encode(o.sound.frame(o.sender.ns * o.nch, 16), nb, 16))
    if dmg % 4 == 1:
        for _ in range(1 + dmg % 9):
            data[o.r.randrange(len(data))] ^= 1 << o.r.randrange(8)
        _sim.fault('damaged-block')
    elif dmg % 8 == 2:
        data = bytearray(o.r.randbytes(len(data)))
        _sim.fault('junk-block')
    elif dmg % 8 == 3:
        m = 20 * o.nch + size % (len(data) - 20 * o.nch + 1)
        del data[m:]
        _sim.fault('truncated-block')
    want, res = o.ref.decode(bytes(data), depth)
    if any(r < 0 for r in res):
        _sim.broken('reference decoder refuses %d bytes' % len(data))
    got = call('decode of %d bytes for %d channels' % (len(data), o.nch), lambda: o.obj.decode((bytes, bytearray, memoryview)[kind % 3](data), depth))
    if depth is None:
        if not isinstance(got, array.array) or got.typecode != 'f':
            _sim.fail('decode-differs', 'decode gives no array of float')
        got = got.tobytes()
    elif type(got) is not bytes:
        _sim.fail('decode-differs', 'decode gives no bytes')
    _sim.ev(got)
    if got != want:
        _sim.fail('decode-differs', 'decode gives other samples than the library, %d channels, %d us, %d Hz, depth %s' % (o.nch, o.us, o.rate, depth))
    _sim.nontrivial()
    _sim.time(o.us)
    _sim.sig(hash((2, o.us, o.rate, o.pcm, o.hr, o.nch, dep % 3, tuple(res))))


def query(o, a):
    br, nb = arg(a, 1), arg(a, 2)
    for what, f, ref in (
            ('get_frame_samples', lambda: o.obj.get_frame_samples(), L.lc3_hr_frame_samples(o.hr, o.us, o.pcm)),
            ('get_delay_samples', lambda: o.obj.get_delay_samples(), L.lc3_hr_delay_samples(o.hr, o.us, o.pcm)),
            ('get_frame_bytes', lambda: o.obj.get_frame_bytes(br), L.lc3_hr_frame_block_bytes(o.hr, o.us, o.rate, o.nch, br)),
            ('resolve_bitrate', lambda: o.obj.resolve_bitrate(nb), L.lc3_hr_resolve_bitrate(o.hr, o.us, o.rate, nb))):
        if what == 'get_frame_bytes' and o.old:
            ref = o.nch * L.lc3_hr_frame_block_bytes(o.hr, o.us, o.rate, 1, br // o.nch)
        elif what == 'get_frame_bytes' and o.nch > 8:
            continue
        if ref < 0:
            expect_error(what, f)
        else:
            got = call(what, f)
            if got != ref:
                _sim.fail('query-differs', '%s gives %s, the library %d' % (what, got, ref))


def run_c15(text):
    cfg, ops = parse(text)
    objs = {}
    for i, (k, a) in enumerate(ops):
        _sim.step(i)
        o = objs.get(arg(a, 0))
        if k in ('new-enc', 'new-dec'):
            new(objs, k, a)
        elif k == 'drop':
            drop(objs, arg(a, 0))
        elif k == 'no-lib':
            for name in ('lc3', 'c'):
                keep = present.pop(name)
                expect_error('a system without ' + name, lambda: lc3.Encoder(10000, 16000), (lc3.InitializationError,))
                present[name] = keep
            _sim.fault('library-missing')
        elif o is None:
            continue
        elif k == 'query':
            query(o, a)
        elif k == 'enc' and o.enc:
            encode(o, a)
        elif k == 'dec' and not o.enc:
            decode(o, a)
        if shim.sim_bad():
            _sim.fail('bad-free', 'memory released twice, or not allocated')
    o = None
    for k in list(objs):
        drop(objs, k)
    gc.collect()
    if shim.sim_live():
        _sim.fail('leak', '%d blocks remain when every object is gone' % shim.sim_live())


# --- Simulated files for the tools -------------------------------------------------

class Raw(io.RawIOBase):
    def __init__(self, io_, mode, data=b'', pipe=False, split=None, fault=None):
        self.mode, self.data, self.pos, self.pipe, self.split = mode, bytearray(data), 0, pipe, split
        self.fault, self.count, self.name, self.world = fault, 0, '%' + mode, io_

    def readable(self):
        return self.mode == 'rb'

    def writable(self):
        return self.mode == 'wb'

    def seekable(self):
        return not self.pipe

    def fileno(self):
        raise OSError(errno.EBADF, 'no descriptor')

    def hit(self, kind, n, sticky):
        f = self.fault
        if f and f[0] == kind and (n >= f[1] if sticky else n == f[1]):
            self.world['fired'] += 1
            return True
        return False

    def readinto(self, b):
        k = self.world['reads']
        self.world['reads'] += 1
        if self.hit('read-error', k, True) or self.hit('read-error-once', k, False):
            raise OSError(errno.EIO, 'I/O error')
        n = min(len(b), len(self.data) - self.pos)
        if n > 1 and self.split:
            n = self.split.randint(1, min(n, 7) if self.split.random() < .3 else n)
        n = max(0, n)
        b[:n] = self.data[self.pos:self.pos + n]
        self.pos += n
        return n

    def write(self, b):
        b = bytes(b)
        k = self.world['writes']
        self.world['writes'] += 1
        if self.hit('write-error', k, True) or self.hit('write-error-once', k, False):
            raise OSError(errno.EIO, 'I/O error')
        n = len(b)
        if n > 1 and self.split:
            n = self.split.randint(1, n)
        if self.fault and self.fault[0] == 'no-space' and self.pos + n > self.fault[1]:
            self.world['fired'] += 1
            n = max(0, self.fault[1] - self.pos)
            if not n:
                raise OSError(errno.ENOSPC, 'No space left on device')
        self.data[self.pos:self.pos + n] = b[:n]
        self.pos += n
        return n

    def seek(self, off, wh=0):
        if self.pipe:
            raise OSError(errno.ESPIPE, 'Illegal seek')
        p = off + (0, self.pos, len(self.data))[wh]
        if p < 0:
            raise OSError(errno.EINVAL, 'Invalid argument')
        self.pos = p
        return p

    def tell(self):
        if self.pipe:
            raise OSError(errno.ESPIPE, 'Illegal seek')
        return self.pos

    def close(self):
        if not self.closed:
            super().close()
            if self.mode == 'wb' and self.hit('close-error', 0, True):
                raise OSError(errno.EIO, 'I/O error')


class Result:
    pass


def py_tool(name, opts, data, io_=0, seed=0, fault=None):
    """Runs a Python tool: exit status, output, message, operation counts"""
    world = {'reads': 0, 'writes': 0, 'fired': 0}
    r = random.Random(seed)
    split = r if io_ & 16 else None
    rin = Raw(world, 'rb', data, bool(io_ & 4), split, fault)
    rout = Raw(world, 'wb', b'', bool(io_ & 8), split, fault)
    bs = r.randint(1, 9000) if split else 8192
    fin, fout = io.BufferedReader(rin, bs), io.BufferedWriter(rout, bs)
    argv = [name] + list(opts)
    named = (io_ & 1, io_ & 3 == 3)
    argv += ['%in'] if named[0] else []
    argv += ['%out'] if named[1] else []
    keep = (sys.argv, sys.stdin, sys.stdout, sys.stderr, builtins.open, io.open)
    real = builtins.open

    def sized(mode, a, k, buffered, raw):
        if ('r' in mode) != (buffered is fin):      # as if the kernel had given a descriptor for the other direction
            _sim.fail('open-mode', 'the Python %s opens its %s with mode %r' % (name, 'input' if buffered is fin else 'output', mode))
        if 'b' not in mode:
            return io.TextIOWrapper(buffered)
        return raw if (a[0] if a else k.get('buffering', -1)) == 0 else buffered

    def sim_open(f, mode='r', *a, **k):
        if f == '%in':
            if fault and fault[0] == 'open-input-error':
                world['fired'] += 1
                raise PermissionError(errno.EACCES, 'Permission denied', f)
            return sized(mode, a, k, fin, rin)
        if f == '%out':
            if fault and fault[0] == 'open-output-error':
                world['fired'] += 1
                raise OSError(errno.EROFS, 'Read-only file system', f)
            return sized(mode, a, k, fout, rout)
        return real(f, mode, *a, **k)

    null = io.BytesIO()
    err = io.StringIO()
    sys.argv = argv
    sys.stdin = io.TextIOWrapper(fin if not named[0] else io.BufferedReader(Raw(world, 'rb')))
    sys.stdout = io.TextIOWrapper(fout if not named[1] else io.BufferedWriter(Raw(world, 'wb')))
    sys.stderr = err
    builtins.open = io.open = sim_open
    res = Result()
    res.exit = 0
    try:
        try:
            runpy.run_path(DIR + '/py/tools/' + name + '.py', run_name='__main__')
        except SystemExit as e:
            res.exit = e.code if isinstance(e.code, int) else 0 if e.code is None else 1
            if isinstance(e.code, str):
                err.write(e.code)
        except BaseException:
            res.exit = 1
            err.write(traceback.format_exc(limit=-1))
        try:        # as the interpreter does when it ends
            if not sys.stdout.closed:
                sys.stdout.flush()
        except Exception as e:
            res.exit = 120
            err.write(str(e))
        # an output file that the tool did not close is flushed when it goes away
        try:
            if named[1] and not fout.closed:
                fout.close()
        except Exception:
            pass
    finally:
        for s in (sys.stdin, sys.stdout):
            try:
                s.detach()
            except Exception:
                pass
        sys.argv, sys.stdin, sys.stdout, sys.stderr, builtins.open, io.open = keep
    res.out, res.err, res.fired = bytes(rout.data), err.getvalue(), world['fired']
    res.reads, res.writes = world['reads'], world['writes']
    return res


# --- C22 -----------------------------------------------------------------------------

def plain_wav(rate, nch, depth, raw, extra=0):
    sb = depth // 8
    chunk = b'LIST' + struct.pack('<I', extra) + bytes(extra + (extra & 1)) if extra else b''
    return (b'RIFF' + struct.pack('<I', 36 + len(chunk) + len(raw)) + b'WAVEfmt ' +
            struct.pack('<IHHIIHH', 16, 1, nch, rate, rate * nch * sb, nch * sb, depth) + chunk +
            b'data' + struct.pack('<I', len(raw)) + raw)


def wav_info(b):
    if len(b) < 44 or b[:4] != b'RIFF' or b[8:16] != b'WAVEfmt ':
        return None
    n, tag, nch, rate, _, bs, bits = struct.unpack('<IHHIIHH', b[16:36])
    p = 20 + n
    while p + 8 <= len(b):
        s = struct.unpack('<I', b[p + 4:p + 8])[0]
        if b[p:p + 4] == b'data':
            return (rate, nch, bs, bits, s, b[p + 8:])
        p += 8 + s
    return None


def ms(us):
    return '%g' % (us / 1000)


def encode_with(who, cfg, wav, io_, seed):
    us, br = cfg['us'], cfg['bitrate']
    if who:
        opts = ['--bitrate', str(br)]
        if us != 10000 or seed & 1:
            opts += ['--frame_duration', ms(us)]
        if seed & 2:
            opts += ['--libpath', LIBS[0]]
        r = py_tool('encoder', opts, wav, io_, seed)
    else:
        r = c_tool('elc3', ['-b', str(br), '-m', ms(us)] + (['-H'] if cfg.get('hr') else []), wav, io_, seed)
    if r.exit:
        _sim.fail('encoder-tool', 'the %s encoder ends with %d: %s' % (('C', 'Python')[who], r.exit, r.err[-120:]))
    return r.out


def decode_with(who, depth, data, io_, seed, drate=0):
    if who:
        opts = ['--bit_depth', str(depth)] if depth != 16 or seed & 1 else []
        if seed & 2:
            opts += ['--libpath', LIBS[0]]
        r = py_tool('decoder', opts, data, io_, seed)
    else:
        r = c_tool('dlc3', ['-b', str(depth)], data, io_, seed)
    if r.exit:
        _sim.fail('decoder-tool', 'the %s decoder ends with %d: %s' % (('C', 'Python')[who], r.exit, r.err[-120:]))
    w = wav_info(r.out)
    if not w:
        _sim.fail('decoder-tool', 'the %s decoder writes no WAVE file' % ('C', 'Python')[who])
    return w


def c_tool(name, opts, data, io_, seed):
    r = Result()
    r.exit, r.out, r.err = _sim.tool(name, opts, data, io_, seed)
    return r


def run_c22(text):
    cfg, ops = parse(text)
    us, rate, nch, hr = cfg['us'], cfg['rate'], cfg['nch'], cfg.get('hr', 0)
    depth = (16, 24)[cfg['depth'] % 2]
    raw = Sound(cfg['sig'], cfg['sigseed']).frame(min(cfg['frames'], 20000) * nch, depth)
    wav = plain_wav(rate, nch, depth, raw, cfg.get('chunk', 0))
    base = encode_with(0, cfg, wav, 3, 0)
    want = {}
    for i, (k, a) in enumerate(ops):
        _sim.step(i)
        if k == 'foreign':      # not a stream
            d, dio, seed, what, v = [arg(a, j) for j in range(5)]
            b = bytearray(base)
            if what % 3 == 0:
                b[0] ^= v & 255
                b[1] ^= v >> 8 & 255
            elif what % 3 == 1:
                b[2:4] = struct.pack('<H', v % 18)
            else:
                b = b[:v % 18]
            if bytes(b) == base:
                continue
            for who, tool in ((0, 'c_tool'), (1, 'py_tool')):
                r = globals()[tool]('decoder' if who else 'dlc3', [('-b', '--bit_depth')[who], str((16, 24)[d & 1])], bytes(b), dio, seed)
                if not r.exit:
                    _sim.fail('accepted', 'the %s decoder tool reports success for a file that is not a stream' % ('C', 'Python')[who])
                if len(r.out or b'') > 44:
                    _sim.fail('accepted', 'the %s decoder tool writes audio for a file that is not a stream' % ('C', 'Python')[who])
                if not r.err:
                    _sim.fail('no-message', 'the %s decoder tool ends with %d without a message' % (('C', 'Python')[who], r.exit))
            _sim.fault('foreign-file')
            continue
        if k != 'pair':
            continue
        enc, dec, d, eio, dio, seed, head = [arg(a, j) for j in range(7)]
        enc, d = enc & 1, (16, 24)[d & 1]
        if hr and enc:      # the Python encoder has no option for it
            enc = 0
        if d not in want:
            want[d] = decode_with(0, d, base, 3, 0)
        s = encode_with(enc, cfg, wav, eio, seed)
        if head:            # a header with fields of the future
            hs = struct.unpack('<H', s[2:4])[0]
            s = s[:2] + struct.pack('<H', hs + 2 * (head % 5)) + s[4:hs] + bytes(2 if hs == 18 else 0)[:2 * (head % 5)] + b'\x55' * (2 * (head % 5) - (2 if hs == 18 and head % 5 else 0)) + s[hs:]
            _sim.fault('longer-header')
        got = decode_with(dec & 1, d, s, dio, seed)
        for bit, f in ((4, 'input-pipe'), (8, 'output-pipe'), (16, 'split-io')):
            if (eio | dio) & bit:
                _sim.fault(f)
        _sim.ev(s)
        _sim.ev(got[5])
        names = '%s encoder, %s decoder' % (('C', 'Python')[enc], ('C', 'Python')[dec & 1])
        if got[:5] != want[d][:5]:
            _sim.fail('interop', '%s: WAVE header %s, C pair %s' % (names, got[:5], want[d][:5]))
        if got[5] != want[d][5]:
            _sim.fail('interop', '%s: other audio (%d bytes) than the C pair (%d bytes), %d us, %d Hz, %d channels' % (names, len(got[5]), len(want[d][5]), us, rate, nch))
        _sim.probe('pair-%d%d' % (enc, dec & 1))
        _sim.nontrivial()
        _sim.time(cfg['frames'] * 1000000 // rate)
        _sim.sig(hash((us, rate, nch, depth, d, enc, dec & 1, hr, eio & 31, dio & 31)))


# --- C19, for the Python tools ----------------------------------------------------

KINDS = ['read-error', 'read-error-once', 'no-space', 'write-error', 'write-error-once', 'close-error', 'open-input-error',
         'open-output-error']


def run_c19(text):
    cfg, ops = parse(text)
    us, rate, nch = cfg['us'], cfg['rate'], cfg['nch']
    depth = (16, 24)[cfg['depth'] % 2]
    raw = Sound(cfg['sig'], cfg['sigseed']).frame(min(cfg['frames'], 20000) * nch, depth)
    wav = plain_wav(rate, nch, depth, raw)
    opts = ['--bitrate', str(cfg['bitrate']), '--frame_duration', ms(us)]
    lc3_ = py_tool('encoder', opts, wav).out
    whole = {'encoder': lc3_}
    for i, (k, a) in enumerate(ops):
        _sim.step(i)
        if k not in ('encoder', 'decoder'):
            continue
        io_, seed, kind, at = [arg(a, j) for j in range(4)]
        v = (k, opts, wav) if k == 'encoder' else (k, [], lc3_)
        c = py_tool(*v, io_, seed)
        if c.exit:
            _sim.fail('fault-free', 'the Python %s ends with %d without any fault: %s' % (k, c.exit, c.err[-120:]))
        if k not in whole:
            whole[k] = py_tool(*v).out
        if c.out != whole[k] and (k == 'encoder' or c.out[44:] != whole[k][44:]):
            _sim.fail('fault-free', 'the Python %s writes %d of %d bytes without any fault' % (k, len(c.out), len(whole[k])))
        kind = KINDS[kind % len(KINDS)]
        n = c.reads if 'read' in kind else c.writes if kind.startswith('write') else len(c.out) if kind == 'no-space' else 1
        at = at % n if n else 0
        r = py_tool(*v, io_, seed, (kind, at))
        _sim.ev(r.exit)
        _sim.ev(r.out)
        if r.fired:
            _sim.fault(kind)
            _sim.nontrivial()
            _sim.sig(hash((k, kind, at, io_)))
        _sim.say('%s %s at %d: fired %d, exit %d, %d of %d bytes, %s' % (k, kind, at, r.fired, r.exit, len(r.out), len(c.out), r.err[-100:]))
        if not r.exit and r.out != c.out:
            _sim.fail('false-success', 'the Python %s reports success with %d of %d bytes written (%s at %d)' % (k, len(r.out), len(c.out), kind, at))
        if not r.exit and r.fired and kind == 'close-error':
            _sim.fail('false-success', 'the Python %s reports success although the output could not be closed' % k)
        if r.exit and not r.fired:
            _sim.fail('false-failure', 'the Python %s ends with %d although nothing failed' % (k, r.exit))
        if r.exit and not r.err:
            _sim.fail('no-message', 'the Python %s ends with %d without a message' % (k, r.exit))
