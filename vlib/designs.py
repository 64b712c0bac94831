"""Randomised whole-design programs (source text with mk() returning a Module) that touch as many library layers as possible."""
import random

HEAD = ['import veriloggen as vg', 'from veriloggen import *', 'import veriloggen.thread as vthread',
        'import veriloggen.dataflow as dataflow', 'import veriloggen.stream as vstream', 'import veriloggen.types.fixed as fx',
        'import veriloggen.types.axi as axi', 'import veriloggen.types.fifo as fifo', 'import veriloggen.types.ram as ram',
        'import veriloggen.types.rom as rom']
TOP = ['def mk():', '    m = Module("%s")', '    clk = m.Input("CLK")', '    rst = m.Input("RST")']


def mod(rng, name=None):
    return HEAD + TOP[:1] + [TOP[1] % (name or rng.choice(['top', 'main', 'blinkled', 'test']))] + TOP[2:]


def t_copy(r):
    L = mod(r)
    w = r.choice([8, 16, 32])
    n = r.choice(['ram_a', 'src', 'myram'])
    nb = r.choice([1, 2])
    L += ['    a = vthread.RAM(m, "%s0", clk, rst, %d, 6, numports=%d)' % (n, w, nb), '    b = vthread.RAM(m, "%s1", clk, rst, %d, 6, numports=%d)' % (n, w, nb),
          '    def f():', '        for i in range(8):', '            a.write(i, i + %d)' % r.randint(0, 9),
          '        vthread.copy(a, b, 0, %d, %d)' % (r.randint(0, 8), r.randint(1, 9))]
    if r.random() < .5:
        L += ['        vthread.copy_pattern(a, b, 0, 4, ((4, 1), (2, 4)), ((4, 2), (2, 8)))']
    if r.random() < .5:
        L += ['        vthread.copy(b, a, 1, 2, 3)']
    L += ['        print("x %d" % b.read(4))', '    th = vthread.Thread(m, "th", clk, rst, f)', '    th.start()', '    return m']
    return L


def t_stream(r):
    L = mod(r)
    ns = r.randint(1, 3)
    L += ['    a = vthread.RAM(m, "ra", clk, rst, 32, 8, numports=1)', '    b = vthread.RAM(m, "rb", clk, rst, 32, 8)', '    c = vthread.RAM(m, "rc", clk, rst, 32, 8)']
    calls = []
    for k in range(ns):
        L += ['    s%d = vthread.Stream(m, "s%d", clk, rst)' % (k, k), '    x = s%d.source("x")' % k, '    y = s%d.source("y")' % k,
              '    p = s%d.parameter("p")' % k]
        e = r.choice(['x * y + p', 'x + y * 3 - p', 's%d.Mux(x > y, x * p, y)' % k, '(x / 3) + y + p', 's%d.Max(x, y) - (p << 2)' % k,
                      's%d.ReduceAddValid(x * y, p)[0]' % k, 's%d.AddTree(x, y, p, x, 3)' % k])
        L += ['    z = ' + e, '    s%d.sink(z, "z")' % k]
        calls += ['        s%d.set_source("x", a, %d, 8)' % (k, r.randint(0, 4)), '        s%d.set_source("y", b, 0, 8, stride=%d)' % (k, r.randint(1, 2)),
                  '        s%d.set_parameter("p", %d)' % (k, r.randint(1, 8)), '        s%d.set_sink("z", c, 0, 8)' % k, '        s%d.run()' % k,
                  '        s%d.join()' % k]
    L += ['    def f():'] + calls + ['        print("%d" % c.read(3))', '    vthread.Thread(m, "th", clk, rst, f).start()', '    return m']
    return L


def t_dataflow(r):
    L = mod(r)
    n = r.randint(3, 7)
    L += ['    V = []']
    for i in range(n):
        L.append('    V.append(dataflow.Variable("v%d", valid="vv%d", ready="vr%d", width=%d, signed=%r))' % (i, i, i, r.choice([8, 16, 32]), r.random() < .5)
                 if r.random() < .5 else '    V.append(dataflow.Variable("v%d", width=%d))' % (i, r.choice([8, 16, 32])))
    no = r.randint(2, 5)
    for i in range(no):
        a, b, c = (r.randrange(n) for _ in range(3))
        e = r.choice(['V[%d] + V[%d]', 'V[%d] * V[%d] + 1', 'V[%d] - V[%d] * 5', 'dataflow.Mux(V[%d] > V[%d], 1, 2)', 'dataflow.ReduceAdd(V[%d] + V[%d])', 'V[%d].prev(2) + V[%d]']) % (a, b)
        e = '(%s) + V[%d]' % (e, c)
        L.append('    o%d = %s' % (i, e))
        L.append('    o%d.output("z%d"%s)' % (i, i, ', valid="zv%d", ready="zr%d"' % (i, i) if r.random() < .5 else ''))
    L.append('    df = dataflow.Dataflow(%s)' % ', '.join('o%d' % i for i in range(no)))
    L.append('    m2 = df.to_module("df%d")' % r.randint(0, 1))
    L.append('    return m2')
    return L


def t_vstream(r):
    L = mod(r)
    L += ['    s = vstream.Stream(m, "CLK" and clk, rst, %s)' % r.choice(['', 'm.Input("iv"), m.Output("ir"), m.Output("ov"), m.Input("ordy")'])] if False else []
    n = r.randint(2, 5)
    L += ['    s = vstream.Stream(m, clk, rst)']
    for i in range(n):
        L += ['    x%d = s.Source("x%d", width=%d)' % (i, i, r.choice([8, 16, 32]))]
    for i in range(r.randint(1, 4)):
        a, b, c = (r.randrange(n) for _ in range(3))
        e = r.choice(['x%d + x%d * x%d', 'vstream.Mux(x%d > x%d, x%d, 3)', 'vstream.AddN(x%d, x%d, x%d)', 'x%d / 3 + x%d - x%d', '(x%d << 1) ^ x%d | x%d',
                      'vstream.ReduceAdd(x%d * x%d, size=4) + x%d']) % (a, b, c)
        L += ['    z%d = %s' % (i, e), '    s.Sink(z%d, "z%d")' % (i, i)] if False else ['    z%d = %s' % (i, e), '    z%d.output("z%d")' % (i, i)]
    L += ['    s.add(%s)' % ', '.join('z%d' % j for j in range(i + 1))] if False else []
    L += ['    return m']
    return L


def t_threads(r):
    L = mod(r)
    n = r.randint(1, 4)
    L += ['    led = m.OutputReg("led", 8, initval=0)', '    mtx = vthread.Mutex(m, "mtx", clk, rst)', '    bar = vthread.Barrier(m, "bar", clk, rst, %d)' % n,
          '    sh = vthread.Shared(m.Reg("shr", 8, initval=0))']
    for i in range(n):
        L += ['    def f%d(a, b=%d):' % (i, r.randint(0, 5)), '        x = a', '        for i in range(b):', '            x += i * %d' % r.randint(1, 5),
              '            if x > %d:' % r.randint(3, 20), '                ' + r.choice(['break', 'continue', 'x -= 3', 'print("v %d" % x)']),
              '        mtx.lock()', '        sh.write(sh.read() + 1)', '        mtx.unlock()', '        bar.wait()', '        print("th %d")' % i]
    L += ['    for k, f in enumerate([%s]):' % ', '.join('f%d' % i for i in range(n)),
          '        th = %s' % r.choice(['vthread.Thread(m, "th%d" % k, clk, rst, f)', 'vthread.TmpThread(m, clk, rst, f)', 'vthread.Thread(m, "th%d" % k, clk, rst, f, fsm_as_module=True)']),
          '        th.start(k + 1)', '    return m']
    return L


def t_seqfsm(r):
    L = mod(r)
    L += ['    a = m.Input("a", 8)', '    o = m.OutputReg("o", 8, initval=%d)' % r.randint(0, 9), '    p = m.OutputReg("p", 8, initval=0)']
    for k in range(r.randint(1, 3)):
        L += ['    q%d = m.Tmp%s(8, initval=0%s)' % (k, 'Reg', r.choice(['', ', prefix="q"'])),
              '    s%d = %s' % (k, r.choice(['Seq(m, "s%d", clk, rst)' % k, 'TmpSeq(m, clk, rst)', 'Seq(m, "s%d", clk, rst, as_module=True)' % k]) if k else 'Seq(m, "s0", clk, rst)'),
              '    s%d.If(a > %d).Delay(%d)(q%d(a + %d))' % (k, r.randint(0, 99), r.randint(0, 3), k, k), '    s%d.Else(q%d.inc())' % (k, k)]
    L += ['    f = %s' % r.choice(['FSM(m, "fsm", clk, rst)', 'TmpFSM(m, clk, rst)', 'FSM(m, "fsm", clk, rst, as_module=True)']),
          '    f(o(a))', '    f.If(a[0]).goto_next()', '    f.Delay(%d)(p(f.state))' % r.randint(0, 3), '    f.If(q0 > 3).goto_init()', '    f.goto_next()',
          '    f.If(a[1]).goto_from(2, 0)', '    return m']
    return L


def t_hier(r):
    L = HEAD + ['def sub(n):', '    m = Module("sub%s" % n)', '    w = m.Parameter("W", %d)' % r.randint(2, 9), '    clk = m.Input("CLK")', '    x = m.Input("x", w)', '    y = m.OutputReg("y", w)',
                '    m.Always(Posedge(clk))(y(x + %d))' % r.randint(1, 9), '    return m'] + mod(r)[len(HEAD):]
    n = r.randint(1, 4)
    L += ['    p = m.Parameter("P", 4)', '    a = m.Input("a", 8)', '    b = m.OutputReg("b", 8)', '    ws = [m.Wire("w%%d" %% i, 8) for i in range(%d)]' % (n + 1), '    ws[0].assign(a)', '    subs = [sub(""), sub("x")]']
    for i in range(n):
        L += ['    m.Instance(subs[%d], "i%d", params=%s, ports=%s)' % (r.randint(0, 1), i, r.choice(['[("W", 8)]', '(8,)', 'dict(W=8)']),
                                                                       r.choice(['[("CLK", clk), ("x", ws[%d]), ("y", ws[%d])]' % (i, i + 1), '(clk, ws[%d], ws[%d])' % (i, i + 1)]))]
    L += ['    m.Always(Posedge(clk))(If(rst)(b(0)).Else(b(ws[%d] + p)))' % n]
    if r.random() < .5:
        L += ['    g = m.GenerateFor(m.Genvar("gi")(0), m.Genvar("gj") < 3, 0)'] if False else \
             ['    i = m.Genvar("gi")', '    o = m.Output("o", 4)', '    g = m.GenerateFor(i(0), i < 4, i(i + 1), scope="gs")', '    g.Assign(o[i](a[i] ^ a[i + 1]))']
    L += ['    return m']
    return L


def t_axi(r):
    L = mod(r)
    L += ['    mem = vthread.RAM(m, "mem", clk, rst, 32, 8, numports=2)', '    m2 = vthread.RAM(m, "mem2", clk, rst, 32, 8)',
          '    ax = vthread.AXIM(m, "maxi", clk, rst, %d)' % r.choice([32, 64]), '    sl = vthread.%s(m, "saxi", clk, rst, length=%d)' % (r.choice(['AXISLiteRegister', 'AXISRegister']), r.randint(2, 8)),
          '    def f():', '        while True:', '            sl.wait_flag(0, value=1, resetvalue=0)', '            n = sl.read(1)', '            ax.dma_read(mem, 0, n, 16)']
    if r.random() < .6:
        L += ['            ax.dma_write_async(m2, 0, 4096, n + 2)', '            ax.dma_wait_write()'] 
    if r.random() < .5:
        L += ['            x = vthread.to_multibank_ram((mem, m2), name="mb")' if False else '            ax.write(1024, ax.read(2048) + 1)']
    L += ['            sl.write(1, n)', '    vthread.Thread(m, "th", clk, rst, f).start()', '    return m']
    return L


def t_multibank(r):
    L = mod(r)
    nb = r.choice([2, 4])
    L += ['    rs = [vthread.RAM(m, "bank%%d" %% i, clk, rst, 32, 6) for i in range(%d)]' % nb,
          '    mb = vthread.%s' % r.choice(['to_multibank_ram(rs, name="mb")', 'to_multibank_ram(rs)', 'MultibankRAM(m, "mbr", clk, rst, 32, 6, numbanks=4)']),
          '    def f():', '        for i in range(16):', '            mb.write(i, i * 3)', '        print("%d" % mb.read(5))',
          '        mb.write_bank(1, 2, 9)', '        print("%d" % rs[1].read(2))', '    vthread.Thread(m, "th", clk, rst, f).start()', '    return m']
    return L


def t_fixed(r):
    L = mod(r)
    pt = r.randint(0, 8)
    L += ['    a = fx.FixedInput(m, "a", 16, %d)' % pt, '    b = fx.FixedInput(m, "b", 16, %d)' % r.randint(0, 8), '    o = fx.FixedOutputReg(m, "o", 32, %d, initval=0)' % r.randint(0, 8),
          '    s = Seq(m, "seq", clk, rst)', '    s(o(%s))' % r.choice(['a + b', 'a * b', 'a - b * 3', 'Mux(a > b, a, b) + 1.5' if False else 'a * b - a']),
          '    t = fx.FixedTmpReg(m, 16, 4, initval=0)', '    s.If(a > b)(t(a))', '    return m']
    return L


def t_fifo(r):
    L = mod(r)
    L += ['    q = vthread.FIFO(m, "q", clk, rst, %d, %d)' % (r.choice([8, 32]), r.randint(2, 5)), '    rm = rom.mkROMDefinition("rom0", [%s], 3, 8)' % ', '.join(str(r.randint(0, 99)) for _ in range(8)),
          '    d = m.Wire("d", 8)', '    ad = m.Reg("ad", 3, initval=0)', '    Submodule(m, rm, "rom_i", arg_ports=[("addr", ad), ("val", d)])' if r.random() < .5 else '    m.Instance(rm, "rom_i", ports=[("addr", ad), ("val", d)])',
          '    def p():', '        for i in range(9):', '            q.enq(i)', '    def c():', '        for i in range(9):', '            print("q %d" % q.deq())',
          '    vthread.Thread(m, "p", clk, rst, p).start()', '    vthread.Thread(m, "c", clk, rst, c).start()', '    Seq(m, "sq", clk, rst)(ad.inc())', '    return m']
    return L


def t_import(r):
    L = HEAD + ['SRC = """', 'module child #(parameter W = %d)(input CLK, input [W-1:0] a, output reg [W-1:0] b);' % r.randint(2, 9), '  always @(posedge CLK) begin',
                '    if (a > %d) b <= a + 1; else b <= {a[0], a[W-1:1]};' % r.randint(1, 3), '  end', 'endmodule',
                'module imp(input CLK, input RST, input [7:0] x, output [7:0] y);', '  child #(.W(8)) c0 (.CLK(CLK), .a(x), .b(y));', 'endmodule', '"""',
                'def mk():', '    ms = from_verilog.read_verilog_module_str(SRC)', '    m = ms["imp"]']
    if r.random() < .5:
        L += ['    o = m.OutputReg("oo", 8)', '    s = Seq(m, "s", m.io_variable["CLK"], m.io_variable["RST"])', '    s(o.inc())']
    L += ['    return m']
    return L


def t_pipe(r):
    L = mod(r)
    L += ['    x = m.Input("x", 16)', '    v = m.Input("v")', '    y = m.Input("y", 16)', '    p = Pipeline(m, "pipe", clk, rst)', '    a = p.input(x%s)' % r.choice(['', ', valid=v']), '    b = p.input(y)',
          '    c = p(%s)' % r.choice(['a + b', 'a * b', 'a - b', 'Mux(a > b, a, b)']), '    d = p(c + %d)' % r.randint(0, 9), '    e = p(d + a)', '    e.output("z"%s)' % r.choice(['', ', valid="zv"']), '    return m']
    return L


TEMPLATES = [t_copy, t_stream, t_dataflow, t_threads, t_seqfsm, t_hier, t_axi, t_multibank, t_fixed, t_fifo, t_import, t_pipe]


def generate(rng):
    return '\n'.join(rng.choice(TEMPLATES)(rng)) + '\n'
