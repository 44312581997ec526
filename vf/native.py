"""Native execution of the harness on this machine (x86_64 and i686 only): replays counterexamples and validates traces.

The location lives in a page that is mapped without access rights; every access traps, the signal handler
applies the environment's write for that step through a second mapping, lets exactly one instruction run, and
re-protects the page.  So a schedule found by the solver (interference before each machine access) is replayed
on the real machine code."""
import os, re, subprocess
from . import build, ops
from .build import rustc, TYPES

RUNNER = r'''
#![allow(warnings)]
mod harness { include!("harness_body.rs"); }
use std::os::raw::*;
extern "C" { fn mmap(a: *mut u8, n: usize, p: c_int, f: c_int, fd: c_int, off: isize) -> *mut u8; fn mprotect(a: *mut u8, n: usize, p: c_int) -> c_int;
  fn memfd_create(n: *const u8, f: c_uint) -> c_int; fn ftruncate(fd: c_int, n: isize) -> c_int; fn sigaction(s: c_int, a: *const u8, o: *mut u8) -> c_int; fn _exit(c: c_int) -> !; }
static mut A: *mut u8 = 0 as *mut u8; static mut B: *mut u8 = 0 as *mut u8;
static mut SCHED: Vec<Option<Vec<u8>>> = Vec::new(); static mut NEV: usize = 0; static mut LO: isize = 0; static mut BASEOFF: usize = 1024;
static mut CBN: Vec<(Vec<u8>, bool)> = Vec::new(); static mut CBP: Vec<Vec<u8>> = Vec::new();
#[cfg(target_pointer_width = "64")] const EFL: usize = if cfg!(target_arch = "x86_64") { 176 } else { 84 };
#[cfg(target_pointer_width = "32")] const EFL: usize = 84;
unsafe extern "C" fn segv(_s: c_int, info: *mut u8, ctx: *mut u8) {
  let addr = *(info.add(if cfg!(target_pointer_width = "64") { 16 } else { 12 }) as *const usize);
  if addr < A as usize || addr >= A as usize + 4096 { println!("FAULT"); _exit(3); }
  let k = NEV; NEV += 1;
  if let Some(Some(r)) = SCHED.get(k) { std::ptr::copy_nonoverlapping(r.as_ptr(), B.offset(BASEOFF as isize + LO), r.len()); }
  if NEV > 200 { println!("LIVELOCK"); _exit(4); }
  mprotect(A, 4096, 3);
  *(ctx.add(EFL) as *mut u32) |= 0x100;
}
unsafe extern "C" fn trap(_s: c_int, _i: *mut u8, ctx: *mut u8) { mprotect(A, 4096, 0); *(ctx.add(EFL) as *mut u32) &= !0x100; }
fn hex(b: &[u8]) -> String { b.iter().map(|x| format!("{:02x}", x)).collect() }
fn unhex(s: &str) -> Vec<u8> { (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect() }
unsafe fn cb(prev: *const u8, next: *mut u8, n: usize) -> bool {
  let k = CBP.len(); CBP.push(std::slice::from_raw_parts(prev, n).to_vec());
  let (v, b) = CBN.get(k).cloned().unwrap_or((vec![0; n], false));
  std::ptr::copy_nonoverlapping(v.as_ptr(), next, n); b
}
@CB@
fn main() { unsafe {
  std::panic::set_hook(Box::new(|i| { println!("PANIC {}", i.to_string().replace('\n', " ")); }));
  let mut a: std::collections::HashMap<String, String> = Default::default();
  for x in std::env::args().skip(1) { let mut p = x.splitn(2, '='); a.insert(p.next().unwrap().into(), p.next().unwrap_or("").into()); }
  let g = |k: &str| a.get(k).cloned().unwrap_or_default();
  let fd = memfd_create(b"x\0".as_ptr(), 0); ftruncate(fd, 4096);
  A = mmap(0 as *mut u8, 4096, 3, 1, fd, 0); B = mmap(0 as *mut u8, 4096, 3, 1, fd, 0);
  LO = g("lo").parse().unwrap(); let d: isize = g("d").parse().unwrap();
  let reg = unhex(&g("region")); std::ptr::copy_nonoverlapping(reg.as_ptr(), B.offset(BASEOFF as isize + LO), reg.len());
  for s in g("sched").split(',') { if s.is_empty() { continue } SCHED.push(if s == "-" { None } else { Some(unhex(s)) }); }
  for s in g("cb").split(',') { if s.is_empty() { continue } let (x, y) = s.split_at(s.len() - 2); CBN.push((unhex(x), y == ":1")); }
  #[repr(C, align(16))] struct Buf([u8; 16]);
  let mut v = Buf([0xA5; 16]); let mut e = Buf([0xA5; 16]); let mut nw = Buf([0xA5; 16]); let mut out = Buf([0xA5; 16]);
  for (b, k) in [(&mut v, "val"), (&mut e, "exp"), (&mut nw, "new")] { let x = unhex(&g(k)); b.0[..x.len()].copy_from_slice(&x); }
  let o: u8 = g("o").parse().unwrap_or(0); let s: u8 = g("s").parse().unwrap_or(0); let f: u8 = g("f").parse().unwrap_or(0);
  let step = g("step") == "1";
  if step {
    // struct sigaction (glibc): handler, mask(128 bytes), flags, restorer
    let mut sa = [0u8; 256];
    let set = |sa: &mut [u8; 256], h: usize| { let p = std::mem::size_of::<usize>(); sa[..p].copy_from_slice(&h.to_ne_bytes()); let fl: i32 = 4; sa[p + 128..p + 132].copy_from_slice(&fl.to_ne_bytes()); };
    set(&mut sa, segv as usize); sigaction(11, sa.as_ptr(), 0 as *mut u8); set(&mut sa, trap as usize); sigaction(5, sa.as_ptr(), 0 as *mut u8);
    mprotect(A, 4096, 0);
  }
  let p = A.offset(BASEOFF as isize + d); let name = g("fn"); let mut ok = 9u8; let n: usize = g("n").parse().unwrap();
  match name.as_str() {
@ARMS@
    _ => { println!("NOFN"); return; }
  }
  let r = std::slice::from_raw_parts(B.offset(BASEOFF as isize + LO), reg.len());
  println!("OK region={} out={} ok={} events={} cbs={} ops={}", hex(r), hex(&out.0[..n]), ok, NEV, CBP.iter().map(|x| hex(x)).collect::<Vec<_>>().join(","), hex(&v.0[..n]) + &hex(&e.0[..n]) + &hex(&nw.0[..n]));
} }
'''

def runner_source(avail):
    arms = []; cbs = []
    o = lambda v: 'std::mem::transmute::<u8, harness::O>(%s)' % v
    for t in TYPES:
        av = avail[t]
        for op in ops.OPS:
            need = {'load': 'AtomicLoad', 'rload': 'AtomicLoad', 'store': 'AtomicStore', 'rstore': 'AtomicStore', 'swap': 'AtomicSwap', 'rswap': 'AtomicSwap'}.get(op, 'AtomicCompareExchange')
            if need not in av: continue
            c = 'harness::%s_%s' % (op, t); P = 'p as *mut _'; M = lambda b: '%s.0.as_mut_ptr() as *mut _' % b
            if op in ops.LOADF: call = '%s(%s, %s, %s)' % (c, P, M('out'), o('o'))
            elif op in ops.STOREF: call = '%s(%s, %s, %s)' % (c, P, M('v'), o('o'))
            elif op in ops.SWAPF: call = '%s(%s, %s, %s, %s)' % (c, P, M('v'), M('out'), o('o'))
            elif op == 'fu': call = 'ok = %s(%s, %s, %s, %s)' % (c, P, M('out'), o('s'), o('f'))
            else: call = 'ok = %s(%s, %s, %s, %s, %s, %s)' % (c, P, M('e'), M('nw'), M('out'), o('s'), o('f'))
            arms.append('    "%s_%s" => { %s; }' % (op, t, call))
        if 'AtomicCompareExchange' in av:
            cbs.append('#[no_mangle] unsafe extern "C" fn cb_%s(p: *const u8, n: *mut u8) -> bool { cb(p, n, std::mem::size_of::<%s>()) }' % (t, t))
    return RUNNER.replace('@CB@', '\n'.join(cbs)).replace('@ARMS@', '\n'.join(arms))

def can_run(cfg):
    return cfg.arch == 'x86' and not cfg.own_core

def build_runner(b):
    """link a native runner for a built configuration; returns its path"""
    cfg, d = b['cfg'], b['dir']
    exe = os.path.join(d, 'runner')
    if os.path.exists(exe): return exe
    body = build.harness_source(b['avail']).replace('#![no_std]', '').replace('#![allow(warnings)]', '').replace('use core::sync::atomic::Ordering as O;', 'pub use core::sync::atomic::Ordering as O;').replace('use core::mem::MaybeUninit as M; use core::sync::atomic::Ordering as O;', 'use core::mem::MaybeUninit as M; pub use core::sync::atomic::Ordering as O;')
    rd = os.path.join(d, 'native-%d' % os.getpid()); os.makedirs(rd)
    with open(os.path.join(rd, 'harness_body.rs'), 'w') as f: f.write(body)
    with open(os.path.join(rd, 'runner.rs'), 'w') as f: f.write(runner_source(b['avail']))
    fl = ['--edition', '2021', '--target', cfg.target, '--cap-lints', 'allow', '-Ccodegen-units=1', '-Csymbol-mangling-version=v0'] + build.rustflags(cfg)
    fl += ['-Copt-level=0', '-Cdebug-assertions=on'] if cfg.profile == 'dev' else ['-Copt-level=3', '-Cdebug-assertions=off']
    cf = []
    for c in b['cfgs']: cf += ['--cfg', c]
    rc, so, se = rustc(cfg.tc, fl + cf + ['--crate-name', 'atomic_maybe_uninit', '--crate-type', 'rlib', os.path.join(build.REPO, 'src/lib.rs'), '--out-dir', rd])
    if rc: raise build.BuildError('native crate %s: %s' % (cfg.id, se[-1500:]))
    rc, so, se = rustc(cfg.tc, fl + ['--crate-name', 'runner', '--crate-type', 'bin', '--extern', 'atomic_maybe_uninit=' + os.path.join(rd, 'libatomic_maybe_uninit.rlib'), os.path.join(rd, 'runner.rs'), '-o', os.path.join(rd, 'runner')])
    if rc: raise build.BuildError('native runner %s: %s' % (cfg.id, se[-1500:]))
    os.replace(os.path.join(rd, 'runner'), exe)
    return exe

def call(exe, **kw):
    try:
        r = subprocess.run([exe] + ['%s=%s' % (k, v) for k, v in kw.items()], stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=20)
    except subprocess.TimeoutExpired:
        return dict(status='timeout')
    s = r.stdout.decode('utf-8', 'replace').strip().split('\n')[-1]
    if s.startswith('OK '):
        d = dict(x.split('=', 1) for x in s[3:].split(' '))
        d['status'] = 'ret'; return d
    if s.startswith('PANIC'): return dict(status='panic', message=s[6:])
    if s: return dict(status=s.lower())
    return dict(status='crash', code=r.returncode)

def tohex(v, n, be=False):
    return int(v).to_bytes(n, 'big' if be else 'little').hex()

def inputs_of(run, model):
    """concrete inputs of a run from a solver model (v0, operands, neighbours, orderings, closure results)"""
    import z3
    ev = lambda x: model.eval(x, model_completion=True).as_long() if not isinstance(x, int) else x
    n = run.n
    lo = -16; hi = run.al + 16
    reg = bytearray(hi - lo)
    for i, v in run.nb.items(): reg[i - lo] = ev(v)
    reg[run.d - lo:run.d - lo + n] = ev(run.v0).to_bytes(n, 'little')
    kw = dict(fn='%s_%s' % (run.op, run.t), n=n, lo=lo, d=run.d, region=bytes(reg).hex())
    for k in ('val', 'exp', 'new'):
        if hasattr(run, k): kw[k] = tohex(ev(getattr(run, k)), n)
    for k in ('o', 's', 'f'):
        if getattr(run, k, None) is not None: kw[k] = ev(getattr(run, k))
    return kw

def replay_inputs(run, st, model):
    kw = inputs_of(run, model)
    ev = lambda x: model.eval(x, model_completion=True).as_long() if not isinstance(x, int) else x
    if st is None: return kw
    if st.cbs: kw['cb'] = ','.join(tohex(ev(nx), run.n) + ':%d' % ev(b) for pv, pu, nx, nu, b, at in st.cbs)
    lo = -16; hi = run.al + 16
    if st.ex.interf:
        sched = []
        for e in st.trace:
            if e.k in ('plainR', 'plainW'): sched.append('-'); continue
            if e.k == 'F': continue
            snap = e.x.get('_pre')
            if snap is None: sched.append('-'); continue
            reg = bytearray(hi - lo)
            for s, (cn, v, u) in snap.items(): reg[s - lo:s - lo + cn] = ev(v).to_bytes(cn, 'little')
            sched.append(bytes(reg).hex())
        kw['sched'] = ','.join(sched); kw['step'] = 1
    return kw

def predicted(run, st, model):
    ev = lambda x: model.eval(x, model_completion=True).as_long() if not isinstance(x, int) else x
    d = dict(status=st.status)
    if st.status == 'ret':
        lo = -16; hi = run.al + 16
        reg = bytearray(hi - lo); o = st.mem['LOC']
        for i in range(lo, hi): reg[i - lo] = ev(o.read(i, 1, False)[0])
        d['region'] = bytes(reg).hex()
        if 'out' in st.mem: d['out'] = tohex(ev(st.mem['out'].read(0, run.n, False)[0]), run.n)
        if st.retval is not None: d['ok'] = str(ev(st.retval[0]) & 0xff)
        if st.cbs: d['cbs'] = ','.join(tohex(ev(c[0]), run.n) for c in st.cbs)
    return d
