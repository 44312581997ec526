"""Builds LLVM IR of the crate (from /repo's working tree) and of a generated harness crate, per configuration."""
import os, re, subprocess, json, shutil, hashlib, tempfile, fcntl, glob
from dataclasses import dataclass, field

REPO = os.environ.get('VF_REPO', '/repo')
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CACHE = os.path.join(VERIF, 'build')
STABLE = '1.97.0'
NIGHTLY = 'nightly'

class BuildError(Exception):
    pass

@dataclass(frozen=True)
class Config:
    name: str
    arch: str               # ISA module
    target: str
    feats: str = ''         # -C target-feature
    cpu: str = ''
    cfgs: tuple = ()        # extra --cfg
    tc: str = STABLE
    own_core: bool = False
    profile: str = 'dev'    # dev | rel
    emu_word: bool = False  # sub-word operations may touch the enclosing aligned word
    model: str = ''         # memory model name
    tags: tuple = ()
    @property
    def legacy(self):
        return 'atomic_maybe_uninit_no_asm_maybe_uninit' in self.cfgs
    @property
    def id(self):
        return '%s/%s%s' % (self.name, 'legacy/' if self.legacy else '', self.profile)

def run(cmd, env=None, cwd=None, timeout=600):
    r = subprocess.run(cmd, env=env, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout)
    return r.returncode, r.stdout.decode('utf-8', 'replace'), r.stderr.decode('utf-8', 'replace')

def base_env():
    e = {k: v for k, v in os.environ.items() if k in ('PATH', 'HOME', 'RUSTUP_HOME', 'CARGO_HOME', 'LANG', 'TMPDIR')}
    e.setdefault('HOME', '/root')
    if '/root/.cargo/bin' not in e.get('PATH', ''):
        e['PATH'] = '/root/.cargo/bin:' + e.get('PATH', '/usr/bin:/bin')
    return e

def rustc(tc, args, **kw):
    env = base_env(); env.update(kw.pop('env', {}))
    return run(['rustc', '+' + tc] + args, env=env, **kw)

_sysroot = {}
def sysroot(tc):
    if tc not in _sysroot:
        _sysroot[tc] = rustc(tc, ['--print', 'sysroot'])[1].strip()
    return _sysroot[tc]

def core_dir(tc, target, cpu=''):
    """metadata-only core for targets without an installed std"""
    d = os.path.join(CACHE, 'core', tc, target + cpu); cpu = ['-Ctarget-cpu=' + cpu] if cpu else []
    os.makedirs(d, exist_ok=True)
    out = os.path.join(d, 'libcore.rmeta')
    with open(os.path.join(d, 'lock'), 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if os.path.exists(out):
            return d
        src = os.path.join(sysroot(tc), 'lib/rustlib/src/rust/library/core/src/lib.rs')
        tmp = tempfile.mkdtemp(dir=d)
        rc, so, se = rustc(tc, ['--edition', '2024', '--crate-name', 'core', '--crate-type', 'lib', '--emit=metadata',
                                '-Zforce-unstable-if-unmarked', '-Zalways-encode-mir', '-Zmir-opt-level=0', '--target', target, '--cap-lints', 'allow', src, '--out-dir', tmp] + cpu)
        if rc != 0:
            raise BuildError('core for %s: %s' % (target, se[-2000:]))
        cb = os.path.join(tmp, 'cb.rs')
        with open(cb, 'w') as f: f.write('#![no_std]\n#![feature(compiler_builtins)]\n#![compiler_builtins]\n#![allow(internal_features)]\n')
        rc, so, se = rustc(tc, ['--edition', '2021', '--crate-name', 'compiler_builtins', '--crate-type', 'lib', '--emit=metadata', '--target', target, '--cap-lints', 'allow',
                                '-Zforce-unstable-if-unmarked', '--extern', 'core=' + os.path.join(tmp, 'libcore.rmeta'), '-L', tmp, cb, '--out-dir', tmp] + cpu)
        if rc != 0:
            raise BuildError('compiler_builtins for %s: %s' % (target, se[-2000:]))
        os.rename(os.path.join(tmp, 'libcompiler_builtins.rmeta'), os.path.join(d, 'libcompiler_builtins.rmeta'))
        os.rename(os.path.join(tmp, 'libcore.rmeta'), out)
        shutil.rmtree(tmp)
    return d

def print_cfg(cfg, flags):
    rc, so, se = rustc(cfg.tc, ['--print', 'cfg', '--target', cfg.target] + flags)
    if rc != 0: raise BuildError('print cfg %s: %s' % (cfg.name, se[-500:]))
    return so.split('\n')

def rustflags(cfg):
    f = []
    if cfg.feats: f.append('-Ctarget-feature=' + cfg.feats)
    if cfg.cpu: f.append('-Ctarget-cpu=' + cfg.cpu)
    return f

class Workspace:
    def __init__(self):
        self.dir = tempfile.mkdtemp(prefix='vf-')
        self.bs = {}; self.feats = {}
    def close(self):
        shutil.rmtree(self.dir, ignore_errors=True)
    def build_script(self):
        """compile /repo/build.rs once"""
        out = os.path.join(self.dir, 'build_script')
        if not os.path.exists(out):
            with open(out + '.lock', 'w') as lk:
                fcntl.flock(lk, fcntl.LOCK_EX)
                if not os.path.exists(out):
                    rc, so, se = rustc(STABLE, ['--edition', '2021', '--crate-name', 'build_script', '--cap-lints', 'allow', os.path.join(REPO, 'build.rs'), '-o', out + '.tmp'],
                                       env={'CARGO_PKG_NAME': 'atomic-maybe-uninit'})
                    if rc != 0: raise BuildError('build.rs: ' + se[-2000:])
                    os.rename(out + '.tmp', out)
        return out
    def build_cfgs(self, cfg):
        """cfgs emitted by the real build script for this configuration"""
        bs = self.build_script()
        flags = rustflags(cfg)
        env = base_env()
        env['TARGET'] = cfg.target
        env['RUSTC'] = os.path.join(sysroot(cfg.tc), 'bin/rustc')
        env['CARGO_ENCODED_RUSTFLAGS'] = '\x1f'.join(flags)
        vals = {}
        for l in print_cfg(cfg, flags):
            if '=' in l:
                k, v = l.split('=', 1); vals.setdefault(k, []).append(v.strip('"'))
            elif l: vals.setdefault(l, [])
        for k, v in vals.items():
            env['CARGO_CFG_' + k.upper()] = ','.join(v)
        rc, so, se = run([bs], env=env)
        if rc != 0: raise BuildError('build script for %s: %s' % (cfg.name, se[-1000:]))
        self.feats[cfg.id] = vals.get('target_feature', []) 
        return [l.split('=', 1)[1] for l in so.split('\n') if l.startswith('cargo:rustc-cfg=') or l.startswith('cargo::rustc-cfg=')]

    def flags(self, cfg, extra_cfgs=None):
        fl = ['--edition', '2021', '--target', cfg.target, '--cap-lints', 'allow', '-Ccodegen-units=1', '-Cpanic=abort', '-Csymbol-mangling-version=v0']
        fl += rustflags(cfg)
        fl += ['--remap-path-prefix', os.path.join(self.dir, re.sub(r'\W', '_', cfg.id)) + '=vf', '--remap-path-prefix', REPO + '=repo']
        if cfg.profile == 'dev':
            fl += ['-Copt-level=0', '-Cdebug-assertions=on', '-Coverflow-checks=on']
        else:
            fl += ['-Copt-level=3', '-Cno-prepopulate-passes', '-Cdebug-assertions=off']
        if cfg.own_core:
            d = core_dir(cfg.tc, cfg.target, cfg.cpu if cfg.arch == 'avr' else '')
            fl += ['-L', d, '--extern', 'noprelude:core=' + os.path.join(d, 'libcore.rmeta'), '-Zunstable-options']
        return fl

    def crate(self, cfg):
        """compile the crate itself; returns (dir, cfgs)"""
        d = os.path.join(self.dir, re.sub(r'\W', '_', cfg.id))
        os.makedirs(d, exist_ok=True)
        cfgs = self.build_cfgs(cfg) + list(cfg.cfgs)
        # a --cfg given by the configuration and one emitted by the build script may coincide
        cfgs = list(dict.fromkeys(cfgs))
        fl = self.flags(cfg)
        for c in cfgs: fl += ['--cfg', c]
        rc, so, se = rustc(cfg.tc, fl + ['--crate-name', 'atomic_maybe_uninit', '--crate-type', 'lib', '--emit=metadata,llvm-ir',
                                         os.path.join(REPO, 'src/lib.rs'), '--out-dir', d])
        if rc != 0:
            raise BuildError('crate does not build for %s: %s' % (cfg.id, se[-3000:]))
        return d, cfgs

    def dep(self, cfg, d, name, src, emit='metadata', extra=()):
        p = os.path.join(d, name + '.rs')
        with open(p, 'w') as f: f.write(src)
        return rustc(cfg.tc, self.flags(cfg) + ['--crate-name', name, '--crate-type', 'lib', '--emit=' + emit,
                     '--extern', 'atomic_maybe_uninit=' + os.path.join(d, 'libatomic_maybe_uninit.rmeta'), '-L', d, p, '--out-dir', d] + list(extra))

TYPES = ['i8', 'u8', 'i16', 'u16', 'i32', 'u32', 'i64', 'u64', 'i128', 'u128', 'isize', 'usize']
TRAITS = ['AtomicLoad', 'AtomicStore', 'AtomicSwap', 'AtomicCompareExchange']

def availability(ws, cfg, d):
    """which types implement which trait in this configuration (asked from rustc)"""
    src = '#![no_std]\nuse atomic_maybe_uninit::raw::*;\n'
    lines = {}
    n = 3
    for t in TYPES:
        for tr in TRAITS:
            src += 'const _: fn() = || { fn f<T: %s>() {} f::<%s>() };\n' % (tr, t)
            lines[n] = (t, tr); n += 1
    rc, so, se = ws.dep(cfg, d, 'probe', src, extra=['--error-format=json'])
    missing = set()
    for l in se.split('\n'):
        if not l.startswith('{'): continue
        j = json.loads(l)
        if j.get('level') != 'error': continue
        if (j.get('code') or {}).get('code') == 'E0277':
            for sp in j['spans']:
                if sp['is_primary'] and sp['line_start'] in lines:
                    missing.add(lines[sp['line_start']])
        elif j.get('spans'):
            raise BuildError('probe %s: %s' % (cfg.id, j.get('message')))
    return {t: {tr for tr in TRAITS if (t, tr) not in missing} for t in TYPES}

def harness_source(avail):
    s = ['''#![no_std]
#![allow(warnings)]
use core::mem::MaybeUninit as M; use core::sync::atomic::Ordering as O; use core::fmt;
use atomic_maybe_uninit::{AtomicMaybeUninit as A, raw::*};
#[no_mangle] pub extern "C" fn h_ord(i: u8) -> u8 { let o = match i { 0 => O::Relaxed, 1 => O::Release, 2 => O::Acquire, 3 => O::AcqRel, _ => O::SeqCst }; unsafe { core::mem::transmute::<O, u8>(o) } }
#[inline(always)] unsafe fn put<T>(r: Result<M<T>, M<T>>, out: *mut M<T>) -> u8 { match r { Ok(x) => { *out = x; 1 } Err(x) => { *out = x; 0 } } }
''']
    for t in TYPES:
        T = dict(t=t)
        s.append('''
#[no_mangle] pub unsafe extern "C" fn new_{t}(v: *const M<{t}>, out: *mut A<{t}>) {{ out.write(A::<{t}>::new(*v)) }}
#[no_mangle] pub unsafe extern "C" fn cnew_{t}(v: *const M<{t}>, out: *mut A<{t}>) {{ out.write(A::<{t}>::const_new(*v)) }}
#[no_mangle] pub unsafe extern "C" fn fromm_{t}(v: *const M<{t}>, out: *mut A<{t}>) {{ out.write(A::<{t}>::from(*v)) }}
#[no_mangle] pub unsafe extern "C" fn fromv_{t}(v: *const {t}, out: *mut A<{t}>) {{ out.write(A::<{t}>::from(*v)) }}
#[no_mangle] pub unsafe extern "C" fn into_{t}(a: *mut A<{t}>, out: *mut M<{t}>) {{ out.write(a.read().into_inner()) }}
#[no_mangle] pub unsafe extern "C" fn getmut_{t}(a: *mut A<{t}>) -> *mut M<{t}> {{ (*a).get_mut() }}
#[no_mangle] pub unsafe extern "C" fn asptr_{t}(a: *const A<{t}>) -> *mut M<{t}> {{ (*a).as_ptr() }}
#[no_mangle] pub unsafe extern "C" fn fromptr_{t}(p: *mut M<{t}>) -> *const A<{t}> {{ A::<{t}>::from_ptr(p) }}
#[no_mangle] pub unsafe extern "C" fn layout_{t}(out: *mut usize) {{ *out = core::mem::size_of::<A<{t}>>(); *out.add(1) = core::mem::align_of::<A<{t}>>(); *out.add(2) = core::mem::size_of::<{t}>(); }}
#[no_mangle] pub unsafe extern "C" fn dbg_{t}(a: *const A<{t}>, f: *mut fmt::Formatter<'_>) -> u8 {{ fmt::Debug::fmt(&*a, &mut *f).is_ok() as u8 }}
'''.format(**T))
        av = avail[t]
        if 'AtomicLoad' in av:
            s.append('''
#[no_mangle] pub unsafe extern "C" fn load_{t}(a: *const A<{t}>, out: *mut M<{t}>, o: O) {{ *out = (*a).load(o); }}
#[no_mangle] pub unsafe extern "C" fn rload_{t}(a: *const M<{t}>, out: *mut M<{t}>, o: O) {{ *out = <{t} as AtomicLoad>::atomic_load(a, o); }}
'''.format(**T))
        if 'AtomicStore' in av:
            s.append('''
#[no_mangle] pub unsafe extern "C" fn store_{t}(a: *const A<{t}>, v: *const M<{t}>, o: O) {{ (*a).store(*v, o); }}
#[no_mangle] pub unsafe extern "C" fn rstore_{t}(a: *mut M<{t}>, v: *const M<{t}>, o: O) {{ <{t} as AtomicStore>::atomic_store(a, *v, o); }}
'''.format(**T))
        if 'AtomicSwap' in av:
            s.append('''
#[no_mangle] pub unsafe extern "C" fn swap_{t}(a: *const A<{t}>, v: *const M<{t}>, out: *mut M<{t}>, o: O) {{ *out = (*a).swap(*v, o); }}
#[no_mangle] pub unsafe extern "C" fn rswap_{t}(a: *mut M<{t}>, v: *const M<{t}>, out: *mut M<{t}>, o: O) {{ *out = <{t} as AtomicSwap>::atomic_swap(a, *v, o); }}
'''.format(**T))
        if 'AtomicCompareExchange' in av:
            s.append('''
#[no_mangle] pub unsafe extern "C" fn cx_{t}(a: *const A<{t}>, c: *const M<{t}>, n: *const M<{t}>, out: *mut M<{t}>, s: O, f: O) -> u8 {{ put((*a).compare_exchange(*c, *n, s, f), out) }}
#[no_mangle] pub unsafe extern "C" fn cxw_{t}(a: *const A<{t}>, c: *const M<{t}>, n: *const M<{t}>, out: *mut M<{t}>, s: O, f: O) -> u8 {{ put((*a).compare_exchange_weak(*c, *n, s, f), out) }}
#[no_mangle] pub unsafe extern "C" fn rcx_{t}(a: *mut M<{t}>, c: *const M<{t}>, n: *const M<{t}>, out: *mut M<{t}>, s: O, f: O) -> u8 {{ let (x, ok) = <{t} as AtomicCompareExchange>::atomic_compare_exchange(a, *c, *n, s, f); *out = x; ok as u8 }}
#[no_mangle] pub unsafe extern "C" fn rcxw_{t}(a: *mut M<{t}>, c: *const M<{t}>, n: *const M<{t}>, out: *mut M<{t}>, s: O, f: O) -> u8 {{ let (x, ok) = <{t} as AtomicCompareExchange>::atomic_compare_exchange_weak(a, *c, *n, s, f); *out = x; ok as u8 }}
extern "C" {{ fn cb_{t}(prev: *const M<{t}>, next: *mut M<{t}>) -> bool; }}
#[no_mangle] pub unsafe extern "C" fn fu_{t}(a: *const A<{t}>, out: *mut M<{t}>, s: O, f: O) -> u8 {{ put((*a).fetch_update(s, f, |p| {{ let mut nx = M::<{t}>::uninit(); if cb_{t}(&p, &mut nx) {{ Some(nx) }} else {{ None }} }}), out) }}
'''.format(**T))
    return ''.join(s)

def build(ws, cfg):
    """-> dict(crate_ll, harness_ll, avail, cfgs)"""
    d, cfgs = ws.crate(cfg)
    avail = availability(ws, cfg, d)
    rc, so, se = ws.dep(cfg, d, 'harness', harness_source(avail), emit='llvm-ir')
    if rc != 0:
        raise BuildError('harness for %s: %s' % (cfg.id, se[-3000:]))
    feats = set(ws.feats[cfg.id])
    for c in cfgs:
        m = re.fullmatch(r'atomic_maybe_uninit_target_feature="(.*)"', c)
        if m: feats.add(m.group(1))
    return dict(dir=d, features=feats, crate_ll=os.path.join(d, 'atomic_maybe_uninit.ll'), harness_ll=os.path.join(d, 'harness.ll'), avail=avail, cfgs=cfgs, cfg=cfg)
