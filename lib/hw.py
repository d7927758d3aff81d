"""Simulation of circuits generated by the magma family: many circuits are put under one
top level, compiled to verilog and simulated by verilator with a generated C++ driver."""
import os, subprocess, itertools
import magma as m
from magma.protocol_type import MagmaProtocol

_n = itertools.count()


def raw(p):
    return p._get_magma_value_() if isinstance(p, MagmaProtocol) else p


def width(p):
    v = raw(p)
    return 1 if isinstance(v, m.Digital) else len(v)


def ports(C):
    """[(name, is_input, width)] of a circuit, without clock and reset, in declared order"""
    res = []
    for n, p in C.interface.ports.items():
        v = raw(p)
        if n in ('CLK', 'ASYNCRESET'):
            continue
        # seen from inside the definition an input drives
        res.append((n, v.is_output(), width(p)))
    return res


class Sim:
    """circuits: [(key, circuit)]; run(stimuli) -> {key: [outputs per cycle]}"""
    def __init__(self, circuits, dirname):
        self.dir = os.path.abspath(dirname)
        os.makedirs(self.dir, exist_ok=True)
        self.circuits = circuits
        self.ports = {k: ports(C) for k, C in circuits}
        name = 'VpTop%d' % next(_n)
        io = dict(CLK=m.In(m.Clock), ASYNCRESET=m.In(m.AsyncReset))
        for k, C in circuits:
            for n, i, w in self.ports[k]:
                io['c%s_%s' % (k, n)] = (m.In if i else m.Out)(m.Bits[max(w, 1)])
        ports_ = self.ports

        class Top(m.Circuit):
            pass
        ns = dict(name=name, io=m.IO(**io))

        def body(io):
            for k, C in circuits:
                inst = C(name='inst_%s' % k)
                ip = inst.interface.ports
                for n in ('CLK', 'ASYNCRESET'):
                    if n in ip:
                        m.wire(getattr(io, n), ip[n])
                for n, i, w in ports_[k]:
                    t = getattr(io, 'c%s_%s' % (k, n))
                    p = raw(ip[n])
                    for b in range(w):
                        q = p if isinstance(p, m.Digital) else p[b]
                        m.wire(t[b], q) if i else m.wire(q, t[b])

        class Top(m.Circuit):
            name = ns['name']
            io = ns['io']
            body(io)
        self.top, self.name = Top, name
        m.compile(os.path.join(self.dir, name), Top, output='coreir-verilog', disable_ndarray=False, coreir_libs={'commonlib'})

    def build(self):
        L = ['#include "V%s.h"' % self.name, '#include "verilated.h"', '#include <cstdio>', '#include <cstdlib>',
             'static unsigned long rd(){unsigned long v; if(scanf("%lu",&v)!=1) exit(0); return v;}',
             'int main(int c,char**v){ Verilated::commandArgs(c,v); V%s* t=new V%s;' % (self.name, self.name)]
        ins = ['c%s_%s' % (k, n) for k, _ in self.circuits for n, i, w in self.ports[k] if i]
        outs = ['c%s_%s' % (k, n) for k, _ in self.circuits for n, i, w in self.ports[k] if not i]
        L += ['t->CLK=0; t->ASYNCRESET=0;']
        L += ['t->%s=0;' % x for x in ins]
        L += ['t->eval(); while(1){ unsigned long cmd=rd();',
              'if(cmd==1){ t->ASYNCRESET=1; t->eval(); t->ASYNCRESET=0; t->eval(); continue; }']
        L += ['t->%s=rd();' % x for x in ins]
        L += ['t->eval();']
        L += ['printf("%%lu ",(unsigned long)t->%s);' % x for x in outs]
        L += ['printf("\\n"); t->CLK=1; t->eval(); t->CLK=0; t->eval(); } }']
        self.ins, self.outs = ins, outs
        with open(os.path.join(self.dir, 'drv.cpp'), 'w') as f:
            f.write('\n'.join(L))
        cmd = ['verilator', '-Wno-fatal', '-Wno-lint', '--cc', self.name + '.v', '--top-module', self.name, '--exe', 'drv.cpp',
               '--build', '-O3', '-CFLAGS', '-O0', '--Mdir', 'obj']
        p = subprocess.run(cmd, cwd=self.dir, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if p.returncode != 0:
            raise RuntimeError('verilator failed:\n' + p.stdout[-3000:])

    def run(self, stim):
        """stim: list of 'reset' or {key: [input values in port order]} -> list of {key: [outputs]}"""
        lines = []
        for s in stim:
            if s == 'reset':
                lines.append('1'); continue
            vals = []
            for k, _ in self.circuits:
                vals += [str(x) for x in s[k]]
            lines.append('0 ' + ' '.join(vals))
        p = subprocess.run([os.path.join(self.dir, 'obj', 'V' + self.name)], input='\n'.join(lines) + '\n', text=True,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=300)
        res = []
        for line in p.stdout.splitlines():
            vs = [int(x) for x in line.split()]
            d, i = {}, 0
            for k, _ in self.circuits:
                no = sum(1 for n, ii, w in self.ports[k] if not ii)
                d[k] = vs[i:i + no]; i += no
            res.append(d)
        return res
