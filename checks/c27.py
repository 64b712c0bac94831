"""C27: IP-XACT packages. Random top modules (buses of every kind, clocks, resets, extra ports, parameters) are packaged; component.xml and the shipped HDL
are read back by parsers of our own and compared with the ports of the emitted design as a Verilog simulator elaborates it and with the recipe."""
import os
import re
import xml.etree.ElementTree as ET
import veriloggen as vg
import veriloggen.thread as vthread
import veriloggen.types.axi as axi
import veriloggen.types.ipxact as ipxact
from vlib.harness import Violation, Inconclusive
from vlib import sim

PID = 'C27'
RULE = ('component.xml lists every port of the emitted top module exactly once, in the direction and with the range it has there; every bus interface has its '
        'mode and maps exactly its signals to the ports that carry them; clocks list their buses and resets; the shipped HDL is the emitted design')
ASSUMPTIONS = ['parameters have their declared default value in the package (the generated package carries no user parameters)',
               'a bus whose clock is not a module input has no clock association']
MIN_EVENTS = {'ports_checked': 2000, 'maps_checked': 1500, 'buses_checked': 150, 'associations': 150, 'parameter_widths': 60, 'hdl_files': 60}
S = '{http://www.spiritconsortium.org/XMLSchema/SPIRIT/1685-2009}'
M2S = ['AWID', 'AWADDR', 'AWLEN', 'AWSIZE', 'AWBURST', 'AWLOCK', 'AWCACHE', 'AWPROT', 'AWQOS', 'AWUSER', 'AWVALID', 'WDATA', 'WSTRB', 'WLAST', 'WUSER', 'WVALID',
       'BREADY', 'ARID', 'ARADDR', 'ARLEN', 'ARSIZE', 'ARBURST', 'ARLOCK', 'ARCACHE', 'ARPROT', 'ARQOS', 'ARUSER', 'ARVALID', 'RREADY',
       'TDATA', 'TVALID', 'TLAST', 'TSTRB', 'TUSER', 'TID', 'TDEST']
S2M = ['AWREADY', 'WREADY', 'BID', 'BRESP', 'BUSER', 'BVALID', 'ARREADY', 'RID', 'RDATA', 'RRESP', 'RLAST', 'RUSER', 'RVALID', 'TREADY']
LITE = {'AWADDR', 'AWCACHE', 'AWPROT', 'AWVALID', 'AWREADY', 'WDATA', 'WSTRB', 'WVALID', 'WREADY', 'BRESP', 'BVALID', 'BREADY', 'ARADDR', 'ARCACHE', 'ARPROT',
        'ARVALID', 'ARREADY', 'RDATA', 'RRESP', 'RVALID', 'RREADY'}
MAST = ['AxiMaster', 'AXIM', 'AxiLiteMaster', 'AXIMLite']
SLAV = ['AxiSlave', 'AXIS', 'AxiLiteSlave', 'AXISLite', 'AXISRegister', 'AXISLiteRegister']
STR = ['AxiStreamIn', 'AXIStreamIn', 'AxiStreamOut', 'AXIStreamOut']
KINDS = MAST + SLAV + STR


def counts(tier):
    return 240 if tier == 'quick' else 2500


def gen(rng, i, tier):
    nclk = rng.choice([1, 1, 2])
    case = {'clks': [], 'buses': [], 'ports': [], 'params': [], 'name': rng.choice(['myip', 'top', 'Blk_0', 'a']), 'ipname': rng.choice([None, None, 'packed', 'my_core']),
            'ver': rng.choice(['1.0', '2.13', '0.1']), 'two': rng.random() < .2}
    for k in range(nclk):
        case['clks'].append({'clk': ['CLK', 'aclk2'][k], 'rst': ['RST', 'areset2'][k], 'internal': rng.random() < .12,
                             'decl': rng.choice([None, None, 'dict', 'list']), 'pol': rng.choice([None, 'ACTIVE_HIGH', 'ACTIVE_LOW']), 'r2': ['RSTB', 'areset2b'][k] if rng.random() < .35 else None})
    for k in range(rng.choice([0, 1, 1, 2, 3])):
        kind = rng.choice(KINDS)
        dw = rng.choice([8, 16, 32, 32, 64, 128])
        if 'Lite' in kind:
            dw = rng.choice([32, 64])
        b = {'kind': kind, 'name': rng.choice(['maxi', 'bus', 'S_AXI', 'p']) + str(k), 'dw': dw, 'aw': rng.choice([8, 12, 32, 32, 40]), 'ck': rng.randrange(nclk),
             'ids': [rng.choice([0, 0, rng.randint(1, 6)]) for _ in range(5)], 'users': [rng.choice([0, 2, rng.randint(1, 4)]) for _ in range(5)],
             'last': rng.random() < .6, 'strb': rng.random() < .5, 'idw': rng.choice([0, 0, 3]), 'uw': rng.choice([0, 0, 5]), 'dsw': rng.choice([0, 0, 2]),
             'noio': rng.random() < .1, 'pw': rng.random() < .2, 'len': rng.choice([4, 8, 5])}
        if b['noio'] and kind in SLAV:
            b['kind'] = rng.choice(STR)  # the slaves cannot be built without ports (refused)
        b['r2'] = rng.random() < .5
        case['buses'].append(b)
    for k in range(rng.randint(0, 3)):
        case['params'].append({'name': 'P%d' % k, 'v': rng.randint(2, 20), 'kind': rng.choice(['Parameter', 'Parameter', 'Localparam']), 'of': rng.random() < .4})
    for k in range(rng.randint(0, 8)):
        w = rng.choice([None, 1, 2, 7, 8, 32, 100])
        ex = None
        if case['params'] and rng.random() < .5:
            ex = [rng.choice(['p', 'p+1', 'p*2', 'p-1', 'p<<1', 'p>>1', 'p//2', '1+p', 'p+q', 'p%5+1', 'mux']), rng.randrange(len(case['params'])),
                  rng.randrange(len(case['params']))]
        case['ports'].append({'k': rng.choice(['Input', 'Output', 'OutputReg', 'Inout']), 'name': 'x%d' % k, 'w': w, 'ex': ex, 's': rng.random() < .3,
                              'irq': rng.choice([None, None, None, 'LEVEL_HIGH', 'EDGE_RISING'])})
    case['irqlist'] = rng.random() < .5
    case['order'] = rng.random() < .5
    case['imp'] = not case['buses'] and rng.random() < .6
    return case


def width_expr(p, params):
    if p['ex'] is None:
        return p['w']
    f, i, j = p['ex']
    a, b = params[i], params[j]
    return {'p': lambda: a, 'p+1': lambda: a + 1, 'p*2': lambda: a * 2, 'p-1': lambda: a - 1, 'p<<1': lambda: a << 1, 'p>>1': lambda: a >> 1,
            'p//2': lambda: a / 2, '1+p': lambda: 1 + a, 'p+q': lambda: a + b, 'p%5+1': lambda: a % 5 + 1, 'mux': lambda: vg.Mux(a > b, a, b)}[f]()


def build(case):
    m = vg.Module(case['name'])
    params = []
    for k, p in enumerate(case['params']):
        v = p['v']
        prev = [q for q, r in zip(params, case['params']) if r['kind'] == 'Parameter' or p['kind'] == 'Localparam']
        if p['of'] and prev:
            v = prev[-1] + p['v']
        params.append(getattr(m, p['kind'])(p['name'], v))
    extra = case['ports']
    if case['order']:
        mkports(m, extra, params)
    clks = []
    for c in case['clks']:
        if c['internal']:
            s = m.Input(c['clk'] + '_src')
            clk, rst = m.Wire(c['clk']), m.Wire(c['rst'])
            clk.assign(s)
            rst.assign(0)
        else:
            clk, rst = m.Input(c['clk']), m.Input(c['rst'])
        r2 = rst if c['internal'] or not c.get('r2') else m.Input(c['r2'])
        clks.append((clk, rst, r2))
    for b in case['buses']:
        clk, rst, r2 = clks[b['ck']]
        if b.get('r2'):
            rst = r2
        k = b['kind']
        mod = axi if k.startswith('Axi') else vthread
        dw, aw = b['dw'], b['aw']
        if b['pw'] and not case['order'] and k not in MAST:  # the request FIFOs of masters need numbers
            aw = m.Parameter(b['name'] + '_AW', aw)
        kw = {'noio': b['noio']}
        if k in STR:
            kw.update(with_last=b['last'], with_strb=b['strb'], id_width=b['idw'], user_width=b['uw'], dest_width=b['dsw'])
            getattr(mod, k)(m, b['name'], clk, rst, dw, **kw)
            continue
        if 'Lite' not in k:
            for n, v in zip(['waddr', 'wdata', 'wresp', 'raddr', 'rdata'], b['ids']):
                kw[n + '_id_width'] = v
            for n, v in zip(['waddr', 'wdata', 'wresp', 'raddr', 'rdata'], b['users']):
                kw[n + '_user_width'] = v
        if 'Register' in k:
            kw['length'] = b['len']
        getattr(mod, k)(m, b['name'], clk, rst, dw, aw, **kw)
    if not case['order']:
        mkports(m, extra, params)
    return m


def mkports(m, extra, params):
    for p in extra:
        kw = {'signed': True} if p['s'] and p['k'] != 'Inout' else {}
        getattr(m, p['k'])(p['name'], width_expr(p, params), **kw)


def signals(b):
    k = b['kind']
    if k in STR:
        r = {'TDATA', 'TVALID', 'TREADY'}
        for f, s in (('last', 'TLAST'), ('strb', 'TSTRB'), ('idw', 'TID'), ('uw', 'TUSER'), ('dsw', 'TDEST')):
            if b[f]:
                r.add(s)
        return r
    if 'Lite' in k:
        return set(LITE)
    r = set(x for x in M2S + S2M if x[0] != 'T')
    for n, i, u in zip(('AW', 'W', 'B', 'AR', 'R'), b['ids'], b['users']):
        r.discard('WID')
        if not i:
            r.discard(n + 'ID')
        if not u:
            r.discard(n + 'USER')
    return r


HEAD = re.compile(r'\bmodule\s+(\w+)\s*(?:#\s*\((.*?)\)\s*)?\((.*?)\);', re.S)


def elaborate(hdl, top, ctx):
    """[(name, direction, declared range?, $bits)] of the top module, from the text, the widths from an elaborated simulation"""
    for mm in HEAD.finditer(hdl):
        if mm.group(1) == top:
            break
    else:
        raise Violation('hdl-no-top', 'the shipped HDL has no module %s' % top, hdl=hdl[:2000])
    ports = []
    for item in re.split(r',\s*(?=input|output|inout)', mm.group(3).strip()):
        if not item.strip():
            continue
        g = re.match(r'(input|output|inout)\s+(reg\s+|wire\s+)?(signed\s+)?(\[.*\])?\s*(\w+)$', item.strip(), re.S)
        if not g:
            raise Inconclusive('port text %r' % item)
        ports.append((g.group(5), {'input': 'in', 'output': 'out', 'inout': 'inout'}[g.group(1)], g.group(4) is not None))
    tb = hdl + '\nmodule tb_bits;\n'
    tb += '%s dut();\ninitial begin\n' % top + ''.join('$display("W %s %%0d", $bits(dut.%s));\n' % (n, n) for n, _, _ in ports) + '$finish;\nend\nendmodule\n'
    out = sim.iverilog(tb, 'tb_bits', ctx)
    w = {l.split()[1]: int(l.split()[2]) for l in out.lines if l.startswith('W ')}
    return [(n, d, r, w[n]) for n, d, r in ports]


def txt(e, path):
    x = e.find('/'.join(S + p for p in path.split('/')))
    return None if x is None else (x.text or '').strip()


def run(case, ctx):
    code = None
    cwd = os.getcwd()
    d = os.path.join(str(ctx.scratch), 'pkg')
    os.makedirs(d, exist_ok=True)
    ipname = case['ipname'] or case['name']
    kw = {'ip_ver': case['ver']}
    if case['ipname']:
        kw['ip_name'] = case['ipname']
    m = build(case)
    want = build(case).to_verilog()
    if case.get('imp'):
        text = want
        os.chdir(d)
        try:
            m = vg.from_verilog.read_verilog_module_str(text)[case['name']]
            want = vg.from_verilog.read_verilog_module_str(text)[case['name']].to_verilog()
        finally:
            os.chdir(cwd)
        ctx.ev('imported_modules')
    dclk, drst, form = [], [], None
    for c in case['clks']:
        if c['decl'] and not c['internal']:
            form = form or c['decl']
            dclk.append((c['clk'], (c['rst'],)))
            if c['pol']:
                drst.append((c['rst'], c['pol']))
    if dclk:
        kw['clk_ports'] = dclk if form == 'list' else {a: list(b) for a, b in dclk}
        if drst:
            kw['rst_ports'] = drst if form == 'list' else dict(drst)
    irqs = [(p['name'], p['irq']) for p in case['ports'] if p['irq'] and p['k'].startswith('Output')]
    if irqs:
        kw['irq_ports'] = irqs if case['irqlist'] else dict(irqs)
    os.chdir(d)
    try:
        ipxact.to_ipxact(m, **kw)
        if case['two']:
            ipxact.to_ipxact(m, **{k: v for k, v in kw.items()})
    finally:
        os.chdir(cwd)
    root = os.path.join(d, '%s_v%s' % (ipname, case['ver'].replace('.', '_')))
    hdl = open(os.path.join(root, 'hdl', ipname + '.v')).read()
    ctx.ev('hdl_files')
    if hdl != want:
        raise Violation('hdl-differs', 'the shipped HDL is not the emitted design', code=hdl[:20000], want=want[:20000])
    xml = open(os.path.join(root, 'component.xml')).read()
    top = ET.fromstring(xml)
    data = {'code': hdl[:6000], 'xml': xml}

    def bad(mech, msg):
        raise Violation(mech, msg, **data)
    if txt(top, 'name') != ipname or txt(top, 'version') != case['ver']:
        bad('identity', 'component is %r version %r, asked for %r %r' % (txt(top, 'name'), txt(top, 'version'), ipname, case['ver']))
    files = set()
    for fs in top.find(S + 'fileSets'):
        for f in fs.findall(S + 'file'):
            n = txt(f, 'name')
            files.add(n)
            if not os.path.exists(os.path.join(root, n)):
                bad('file-missing', 'the package names the file %s which it does not contain' % n)
    if 'hdl/%s.v' % ipname not in files:
        bad('file-missing', 'the HDL file is not part of a file set')
    # ports
    ports = elaborate(hdl, case['name'], ctx)
    got = top.find(S + 'model').find(S + 'ports').findall(S + 'port')
    names = [txt(p, 'name') for p in got]
    if sorted(names) != sorted(n for n, _, _, _ in ports):
        bad('port-list', 'ports listed %s, ports of the design %s' % (sorted(names), sorted(n for n, _, _, _ in ports)))
    byname = dict(zip(names, got))
    pdir = {}
    exprs = {p['name'] for p in case['ports'] if p['ex']} | {b['name'] + s for b in case['buses'] if b['pw'] and b['kind'] not in MAST for s in ('_awaddr', '_araddr')}
    for n, dr, ranged, bits in ports:
        p = byname[n]
        pdir[n] = dr
        gd = txt(p, 'wire/direction')
        if gd != dr:
            bad('port-direction', 'port %s is %s in the design and %s in the package' % (n, dr, gd))
        l, r = txt(p, 'wire/vector/left'), txt(p, 'wire/vector/right')
        if l is None and r is None:
            gw = 1
        else:
            try:
                gw = int(l) - int(r) + 1
            except (TypeError, ValueError):
                bad('port-range', 'port %s has range [%s:%s]' % (n, l, r))
        if gw != bits:
            bad('port-width', 'port %s has %d bits in the design and %d in the package' % (n, bits, gw))
        ctx.ev('ports_checked')
        if n in exprs:
            ctx.ev('parameter_widths')
    # bus interfaces
    ifs = {}
    for bi in top.find(S + 'busInterfaces'):
        n = txt(bi, 'name')
        if n in ifs:
            bad('interface-twice', 'bus interface %s is listed twice' % n)
        ifs[n] = bi
    expect = set()
    real = [b for b in case['buses'] if not b['noio']]
    for b in real:
        n = b['name']
        expect.add(n)
        if n not in ifs:
            bad('interface-missing', 'bus interface %s is not listed' % n)
        bi = ifs[n]
        k = b['kind']
        master = k in MAST or k.endswith('StreamOut')
        if (bi.find(S + 'master') is not None) != master or (bi.find(S + 'slave') is not None) == master:
            bad('interface-mode', 'interface %s (%s) has the wrong mode' % (n, k))
        bt = bi.find(S + 'busType').get(S + 'name')
        if bt != ('axis' if k in STR else 'aximm'):
            bad('interface-type', 'interface %s (%s) has bus type %s' % (n, k, bt))
        maps = [(txt(x, 'logicalPort/name'), txt(x, 'physicalPort/name')) for x in bi.find(S + 'portMaps')]
        if len(set(a for a, _ in maps)) != len(maps):
            bad('map-twice', 'interface %s maps a signal twice' % n)
        if set(a for a, _ in maps) != signals(b):
            bad('map-set', 'interface %s maps %s; missing %s' % (n, sorted(set(a for a, _ in maps) - signals(b)), sorted(signals(b) - set(a for a, _ in maps))))
        for a, ph in maps:
            if ph != '%s_%s' % (n, a.lower()):
                bad('map-port', 'interface %s maps %s to %s' % (n, a, ph))
            if ph not in pdir:
                bad('map-no-port', 'interface %s maps %s to %s, which is not a port' % (n, a, ph))
            if pdir[ph] != ('out' if (a in M2S) == master else 'in'):
                bad('map-direction', 'signal %s of %s %s is an %s port' % (a, 'master' if master else 'slave', n, pdir[ph]))
            ctx.ev('maps_checked')
        ctx.ev('buses_checked')
        ctx.sig(k, len(maps))
    asp = {txt(x, 'name'): x for x in (top.find(S + 'addressSpaces') if top.find(S + 'addressSpaces') is not None else [])}
    mmp = {txt(x, 'name'): x for x in (top.find(S + 'memoryMaps') if top.find(S + 'memoryMaps') is not None else [])}
    if set(asp) != {b['name'] for b in real if b['kind'] in MAST} or set(mmp) != {b['name'] for b in real if b['kind'] in SLAV}:
        bad('address-spaces', 'address spaces %s memory maps %s' % (sorted(asp), sorted(mmp)))
    for b in real:
        if b['kind'] in MAST:
            ref = ifs[b['name']].find(S + 'master').find(S + 'addressSpaceRef').get(S + 'addressSpaceRef')
            x = asp[b['name']]
            rg, wd = int(txt(x, 'range')), int(txt(x, 'width'))
        elif b['kind'] in SLAV:
            ref = ifs[b['name']].find(S + 'slave').find(S + 'memoryMapRef').get(S + 'memoryMapRef')
            x = mmp[b['name']].find(S + 'addressBlock')
            rg, wd = int(txt(x, 'range')), int(txt(x, 'width'))
        else:
            continue
        if ref != b['name']:
            bad('address-ref', 'interface %s refers to the address space %s' % (b['name'], ref))
        wr = 4096 if 'Register' in b['kind'] else 2 ** b['aw']
        if 'Register' in b['kind']:
            wr = rg if rg >= b['len'] * b['dw'] // 8 else 'at least %d' % (b['len'] * b['dw'] // 8)
        if rg != wr or wd != b['dw']:
            bad('address-range', 'interface %s has an address range of %d x %d bits, want %s x %d' % (b['name'], rg, wd, wr, b['dw']))
        ctx.ev('address_ranges')
    # clocks, resets, interrupts
    for i, c in enumerate(case['clks']):
        if c['internal']:
            continue
        mine = [b['name'] for b in real if b['ck'] == i]
        noio = [b['name'] for b in case['buses'] if b['noio'] and b['ck'] == i]
        if not mine and not c['decl']:
            if noio:  # a bus that is not a port of the design may or may not bring its clock along
                expect |= {x for x in (c['clk'], c['rst']) if x in ifs}
            continue
        r2 = {b['name'] for b in case['buses'] if b['ck'] == i and b.get('r2') and c.get('r2')}
        use1, use2 = [b for b in mine if b not in r2], [b for b in mine if b in r2]
        if c.get('r2') and set(noio) & r2 and not use2:
            expect |= {x for x in (c['r2'],) if x in ifs}
        resets = [c['rst']] * bool(use1 or c['decl']) + [c['r2']] * bool(use2)
        if len(resets) > 1:
            ctx.ev('clocks_with_two_resets')
        for n, lp in [(c['clk'], 'CLK'), (c['rst'], 'RST')] + [(c['r2'], 'RST')] * bool(use2):
            if n == c['rst'] and not use1 and not (c['decl'] and c['pol']):
                expect |= {x for x in (c['rst'],) if x in ifs}
                continue
            expect.add(n)
            if n not in ifs:
                bad('clock-missing', '%s is not listed as a clock/reset interface' % n)
            pm = [(txt(x, 'logicalPort/name'), txt(x, 'physicalPort/name')) for x in ifs[n].find(S + 'portMaps')]
            if pm != [(lp, n)] or ifs[n].find(S + 'slave') is None:
                bad('clock-map', '%s maps %s' % (n, pm))
            ps = {txt(x, 'name'): txt(x, 'value') for x in ifs[n].find(S + 'parameters')}
            if lp == 'CLK':
                if sorted(filter(None, ps['ASSOCIATED_BUSIF'].split(':'))) != sorted(mine):
                    bad('clock-buses', 'clock %s is associated with %r, its buses are %s' % (n, ps['ASSOCIATED_BUSIF'], mine))
                ar = set(ps['ASSOCIATED_RESET'].split(':'))
                if not set(resets) <= ar <= set(resets) | ({c['rst'], c.get('r2')} if noio else set()):
                    bad('clock-reset', 'clock %s is associated with reset %r, want %s' % (n, ps['ASSOCIATED_RESET'], resets))
                ctx.ev('associations', 1 + len(mine))
            else:
                wp = c['pol'] if c['decl'] and c['pol'] and n == c['rst'] else 'ACTIVE_HIGH'
                if ps['POLARITY'] != wp:
                    bad('reset-polarity', 'reset %s has polarity %s, want %s' % (n, ps['POLARITY'], wp))
                ctx.ev('associations')
    for n, s in irqs:
        expect.add(n)
        if n not in ifs or ifs[n].find(S + 'master') is None:
            bad('irq', 'interrupt %s is not listed' % n)
        pm = [(txt(x, 'logicalPort/name'), txt(x, 'physicalPort/name')) for x in ifs[n].find(S + 'portMaps')]
        ps = {txt(x, 'name'): txt(x, 'value') for x in ifs[n].find(S + 'parameters')}
        if pm != [('INTERRUPT', n)] or ps.get('SENSITIVITY') != s:
            bad('irq', 'interrupt %s maps %s with %s' % (n, pm, ps))
        ctx.ev('interrupts')
    if set(ifs) != expect:
        bad('interface-extra', 'the package lists the interfaces %s, the design has %s' % (sorted(ifs), sorted(expect)))
    ctx.evaluations += 1
    ctx.sample = {'top': case['name'], 'buses': [(b['kind'], b['name']) for b in case['buses']], 'ports': len(ports)}
