// C15, C19 (Python tools) and C22: a Python interpreter inside the simulator
// runs the module and its tools; the operations are executed by py/driver.py.
#define PY_SSIZE_T_CLEAN
#include <Python.h>
#include "net.h"
#include "tool_host.h"
#include <unistd.h>

using namespace sim;
extern "C" { int elc3_main(int, char **); int dlc3_main(int, char **); }
static Ctx *X; static PyObject *driver; static char here[1024];

static PyObject *none() { Py_RETURN_NONE; }
static PyObject *f_fail(PyObject *, PyObject *a) { const char *c, *m; if (!PyArg_ParseTuple(a, "ss", &c, &m)) return 0; X->fail(c, "%s", m); }
static PyObject *f_broken(PyObject *, PyObject *a) { const char *m; if (!PyArg_ParseTuple(a, "s", &m)) return 0; X->broken("%s", m); }
static PyObject *f_step(PyObject *, PyObject *a) { int i; if (!PyArg_ParseTuple(a, "i", &i)) return 0; X->step(i); return none(); }
static PyObject *f_ev(PyObject *, PyObject *a)
{
    PyObject *o; if (!PyArg_ParseTuple(a, "O", &o)) return 0;
    if (PyLong_Check(o)) X->ev(PyLong_AsUnsignedLongLongMask(o));
    else { Py_buffer b; if (PyObject_GetBuffer(o, &b, PyBUF_SIMPLE)) return 0; X->ev(b.buf, b.len); PyBuffer_Release(&b); }
    return none();
}
static PyObject *f_fault(PyObject *, PyObject *a) { const char *m; if (!PyArg_ParseTuple(a, "s", &m)) return 0; X->fault(m); return none(); }
static PyObject *f_probe(PyObject *, PyObject *a) { const char *m; if (!PyArg_ParseTuple(a, "s", &m)) return 0; X->probe(m); return none(); }
static PyObject *f_sig(PyObject *, PyObject *a) { long long v; if (!PyArg_ParseTuple(a, "L", &v)) return 0; X->sig(v); return none(); }
static PyObject *f_time(PyObject *, PyObject *a) { long long v; if (!PyArg_ParseTuple(a, "L", &v)) return 0; X->time(v); return none(); }
static PyObject *f_nontrivial(PyObject *, PyObject *) { X->nontrivial(); return none(); }
static PyObject *f_say(PyObject *, PyObject *a) { const char *m; if (!PyArg_ParseTuple(a, "s", &m)) return 0; X->say("%s", m); return none(); }
static PyObject *f_dir(PyObject *, PyObject *) { return PyUnicode_FromString(here); }
// tool(name, options, input, io, seed) -> exit, output, message
static PyObject *f_tool(PyObject *, PyObject *a)
{
    const char *n; PyObject *o; Py_buffer b; int io; unsigned long long seed;
    if (!PyArg_ParseTuple(a, "sOy*iK", &n, &o, &b, &io, &seed)) return 0;
    tool::Inv i; i.main = !strcmp(n, "elc3") ? elc3_main : dlc3_main; i.args = { n };
    for (Py_ssize_t k = 0; k < PyList_Size(o); k++) i.args.push_back(PyUnicode_AsUTF8(PyList_GetItem(o, k)));
    if (io & 1) i.args.push_back("%in");
    if ((io & 3) == 3) i.args.push_back("%out");
    i.in.assign((uint8_t *)b.buf, (uint8_t *)b.buf + b.len); PyBuffer_Release(&b);
    i.in_stdin = !(io & 1); i.out_stdout = (io & 3) != 3; i.in_pipe = io & 4; i.out_pipe = io & 8; i.split = io & 16; i.seed = seed;
    tool::Res r = tool::run(*X, i);
    if (r.hang) X->fail("hang", "%s does not end", n);
    return Py_BuildValue("iy#s", r.exit, (char *)r.out.data(), (Py_ssize_t)r.out.size(), r.err.c_str());
}

static PyMethodDef methods[] = { { "fail", f_fail, METH_VARARGS, 0 }, { "broken", f_broken, METH_VARARGS, 0 }, { "step", f_step, METH_VARARGS, 0 },
    { "ev", f_ev, METH_VARARGS, 0 }, { "fault", f_fault, METH_VARARGS, 0 }, { "probe", f_probe, METH_VARARGS, 0 }, { "sig", f_sig, METH_VARARGS, 0 },
    { "time", f_time, METH_VARARGS, 0 }, { "nontrivial", f_nontrivial, METH_NOARGS, 0 }, { "say", f_say, METH_VARARGS, 0 },
    { "dir", f_dir, METH_NOARGS, 0 }, { "tool", f_tool, METH_VARARGS, 0 }, { 0, 0, 0, 0 } };
static PyModuleDef module = { PyModuleDef_HEAD_INIT, "_sim", 0, -1, methods, 0, 0, 0, 0 };
static PyObject *init() { return PyModule_Create(&module); }

// Before the first fork: every run starts from the same interpreter
void preload()
{
    ssize_t n = readlink("/proc/self/exe", here, sizeof here - 1); here[n > 0 ? n : 0] = 0;
    if (char *p = strrchr(here, '/')) *p = 0;
    PyImport_AppendInittab("_sim", init);
    PyConfig c; PyConfig_InitIsolatedConfig(&c);
    c.use_hash_seed = 1; c.hash_seed = 0; c.write_bytecode = 0; c.install_signal_handlers = 0; c.site_import = 0;
    PyStatus st = Py_InitializeFromConfig(&c);
    if (PyStatus_Exception(st)) { fprintf(stderr, "no interpreter: %s\n", st.err_msg); exit(2); }
    PyObject *path = PySys_GetObject("path"), *d = PyUnicode_FromString((std::string(here) + "/driver").c_str());
    PyList_Insert(path, 0, d);
    driver = PyImport_ImportModule("driver");
    if (!driver) PyErr_Print();     // decided by the runs
}

static void py(const char *f, const Scn &s, Ctx &x)
{
    X = &x;
    if (!driver) x.fail("import", "the module cannot be imported");
    PyObject *r = PyObject_CallMethod(driver, f, "s", s.text().c_str());
    if (!r) {
        PyObject *t, *v, *tb; PyErr_Fetch(&t, &v, &tb); PyErr_NormalizeException(&t, &v, &tb);
        std::string m = "driver: ";
        if (PyObject *o = PyObject_Str(v)) m += std::string(((PyTypeObject *)t)->tp_name) + ": " + PyUnicode_AsUTF8(o);
        for (PyTracebackObject *b = (PyTracebackObject *)tb; b; b = b->tb_next) m += " @" + std::to_string(PyFrame_GetLineNumber(b->tb_frame));
        x.broken("%s", m.c_str());
    }
}

// --- C15 ---------------------------------------------------------------------------

static Scn gen_c15(uint64_t seed, int tier)
{
    Rng r(seed); Scn s; s.check = "C15"; s.seed = seed;
    int nobj = r.range(1, 4); std::vector<int> enc(nobj, -1); bool failing = r.chance(.3);
    auto make = [&](int i) {
        Cfg c = pick_cfg(r, .25, .3); enc[i] = r.below(2);
        int us = c.us(), rate = c.hz(), pcm = c.pcm_hz() == rate && r.chance(.7) ? 0 : c.pcm_hz(), nch = r.chance(.5) ? r.range(1, 2) : r.chance(.8) ? r.range(1, 8) : 9;
        bool hr = c.hr();
        if (r.chance(.05)) us = r.pick(std::vector<int>{ 0, 1, 2499, 7500, 20000, -10000 });
        if (r.chance(.05)) rate = r.pick(std::vector<int>{ 0, 44100, 96000, 11025, -8000, 48001, 22050 });
        if (r.chance(.05)) pcm = r.pick(std::vector<int>{ 44100, 8000, 96000, 12000, 1 });
        if (r.chance(.02)) hr = !hr;
        s.add(enc[i] ? "new-enc" : "new-dec", { i, us, rate, nch, hr, pcm, failing && r.chance(.5) ? r.range(1, nch + 1) : 0, !hr && r.chance(.15), r.below(1 << 30) });
    };
    for (int i = 0; i < nobj; i++) make(i);
    int n = r.range(4, tier ? 120 : 40);
    for (int k = 0; k < n; k++) {
        int i = r.below(nobj);
        switch (r.pickw({ 30, 3, 2, 1.5, .4 })) {
        case 0: { int mode = r.chance(.08) ? r.range(1, 3) : 0;
            s.add(enc[i] ? "enc" : "dec", { i, mode, r.below(5), r.chance(.2) ? 0 : r.chance(.2) ? 1 : (int64_t)(r.u64() >> 34), r.below(100), r.below(3) }); break; }
        case 1: s.add("query", { i, r.chance(.3) ? 0 : r.chance(.2) ? 0x7fffffff : r.chance(.1) ? -r.below(100000) : r.below(700000), r.chance(.1) ? -r.below(10) : r.below(2000) }); break;
        case 2: s.add("drop", { i }); if (r.chance(.7)) make(i); break;
        case 3: make(i); break;
        default: s.add("no-lib", {}); break;
        }
    }
    return s;
}
static void exec_c15(const Scn &s, Ctx &x) { py("run_c15", s, x); }
static Register r15({ "C15", gen_c15, exec_c15, 60 });

// --- C19, C22 ------------------------------------------------------------------------

static Cfg stream(Scn &s, Rng &r, bool hr, int maxms)
{
    Cfg c = pick_cfg(r, hr ? .25 : 0, 0);
    s.cfg["us"] = c.us(); s.cfg["rate"] = c.hz(); s.cfg["hr"] = c.hr(); s.cfg["nch"] = r.range(1, 2); s.cfg["depth"] = r.below(2);
    s.cfg["bitrate"] = r.chance(.15) ? r.range(1, 500000) : r.range(16000, c.hr() ? 500000 : 160000);
    s.cfg["frames"] = r.chance(.25) ? r.below(3 * c.ns()) : r.below((int64_t)maxms * c.hz() / 1000);
    s.cfg["sig"] = r.below(6); s.cfg["sigseed"] = r.below(1 << 30);
    return c;
}

static Scn gen_c22(uint64_t seed, int tier)
{
    Rng r(seed); Scn s; s.check = "C22"; s.seed = seed;
    stream(s, r, true, tier ? 400 : 80);
    s.cfg["chunk"] = r.chance(.3) ? r.range(1, 60) : 0;
    int n = r.range(1, 4);
    for (int i = 0; i < n; i++) s.add("pair", { r.chance(.7), r.chance(.7), r.below(2), r.below(32), r.below(32), (int64_t)(r.u64() >> 34), r.chance(.15) ? r.range(1, 4) : 0 });
    if (r.chance(.12)) s.add("foreign", { r.below(2), r.below(32), (int64_t)(r.u64() >> 34), r.below(3), r.chance(.5) ? 1 << r.below(16) : r.below(65536) });
    return s;
}
static void exec_c22(const Scn &s, Ctx &x) { py("run_c22", s, x); }
static Register r22({ "C22", gen_c22, exec_c22, 60 });

static Scn gen_c19(uint64_t seed, int tier)
{
    Rng r(seed); Scn s; s.check = "C19"; s.seed = seed;
    stream(s, r, false, tier ? 300 : 60);
    int n = r.range(1, 5);
    for (int i = 0; i < n; i++) s.add(r.chance(.5) ? "encoder" : "decoder", { r.below(32), (int64_t)(r.u64() >> 34), r.below(8), r.chance(.3) ? r.below(3) : (int64_t)(r.u64() >> 34) });
    return s;
}
static void exec_c19(const Scn &s, Ctx &x) { py("run_c19", s, x); }
static Register r19({ "C19", gen_c19, exec_c19, 60 });
