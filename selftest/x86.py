#!/usr/bin/env python3-vt
"""Compares the x86_64 instruction encodings of vf/isa_x86.py with this machine, on random register/memory values.
(Validation of the encoder only; no property is decided here.)"""
import os, sys, random, subprocess, tempfile, z3
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vf import build, llir, symex, asmx, isa_x86
SEQ = '''cdq|cqo|cwd|cwde|cdqe|cbw|bswap eax|bswap rdx|adc rax, rdx|sbb rax, rdx|adc eax, dword ptr [{p}+64]|sbb word ptr [{p}+64], dx|add byte ptr [{p}+64], dl|lock add dword ptr [{p}+64], edx
bt eax, 5|bts rax, 33|btr edx, ecx|btc rdx, rcx|lock bts dword ptr [{p}+64], 7|rol eax, 7|ror dx, 3|rol rax, cl|shl edx, cl|sar rax, 9|shr dx, 3|shld rax, rdx, 13|shrd eax, edx, 4|imul rax, rdx|imul edx, eax, 77
stc; adc eax, 0|clc; sbb edx, 0|cmc; setc al|xchg ax, dx|xchg dl, dh|xchg rax, qword ptr [{p}+64]|xadd eax, edx|lock xadd word ptr [{p}+64], ax|cmpxchg edx, ecx|lock cmpxchg dword ptr [{p}+64], ecx|cmpxchg byte ptr [{p}+64], cl
mov rax, qword ptr [{p}+64]; lock cmpxchg qword ptr [{p}+64], rcx|cmp eax, edx; cmovg eax, edx|cmp rax, rdx; setle cl|cmp ax, dx; setb al|cmp al, dl; cmovo ecx, edx|cmp eax, edx; sets al|test eax, edx; setz cl|sub eax, edx; seta dl|neg eax|not dx|inc eax; setz dl|dec cx; sets al|sub dx, cx; setge al|add eax, edx; setc cl|and eax, edx; setns cl|xor rax, rdx; sete cl
movzx eax, dl|movsx rax, dx|movsxd rax, edx|movzx ax, byte ptr [{p}+65]|lea rax, [rdx + 4*rcx + 12]|lea eax, [edx + 8*ecx - 3]|movbe eax, dword ptr [{p}+64]|push rax; pop rdx
movd xmm0, eax|movq xmm0, rdx|movd eax, xmm1|movq rax, xmm1|movq xmm0, xmm1|movss xmm0, xmm1|movsd xmm0, xmm1|movss xmm0, dword ptr [{p}+64]|movsd xmm0, qword ptr [{p}+64]|movlps xmm0, qword ptr [{p}+64]|movhps xmm0, qword ptr [{p}+64]|movhps qword ptr [{p}+64], xmm1|movlps qword ptr [{p}+64], xmm1
pshufd xmm0, xmm1, 0x4e|pshufd xmm0, xmm1, 0x93|shufps xmm0, xmm1, 0x4e|unpcklps xmm0, xmm1|punpckldq xmm0, xmm1|punpckhdq xmm0, xmm1|punpcklqdq xmm0, xmm1|punpckhqdq xmm0, xmm1|movhlps xmm0, xmm1|movlhps xmm0, xmm1|psrlq xmm0, 32|psllq xmm0, 13|pslld xmm0, 3|psrld xmm0, 17|psrldq xmm0, 4|pslldq xmm0, 6
pand xmm0, xmm1|por xmm0, xmm1|pxor xmm0, xmm1|pxor xmm0, xmm0|xorps xmm1, xmm1|pextrd eax, xmm0, 2|pextrq rax, xmm0, 1|pextrw eax, xmm0, 5|pinsrd xmm0, edx, 1|pinsrq xmm0, rdx, 1|pinsrw xmm0, edx, 6|movups xmm0, xmmword ptr [{p}+64]|movdqu xmmword ptr [{p}+64], xmm1
fild qword ptr [{p}+64]; fistp qword ptr [{p}+72]|fild dword ptr [{p}+64]; fistp qword ptr [{p}+72]|fild qword ptr [{p}+64]; fistp dword ptr [{p}+72]|fild qword ptr [{p}+64]; fistp word ptr [{p}+72]|fld qword ptr [{p}+64]; fstp qword ptr [{p}+72]|fld dword ptr [{p}+64]; fstp dword ptr [{p}+72]|fild qword ptr [{p}+64]; fstp qword ptr [{p}+72]|fld qword ptr [{p}+64]; fistp qword ptr [{p}+72]|fld dword ptr [{p}+64]; fistp dword ptr [{p}+72]
vmovd xmm0, eax|vmovq xmm0, xmm1|vmovdqa xmm0, xmm1|vpxor xmm0, xmm0, xmm1|vpxor xmm0, xmm1, xmm1|vmovq rax, xmm1|vpunpckldq xmm0, xmm0, xmm1|mov ecx, edx; jecxz 2f; inc eax; 2:|cmpxchg dword ptr [{p}+64], ecx; setb dl'''.replace('\n', '|').split('|')
FLAGDEF = {}
def main():
    rng = random.Random(int(os.environ.get('VERIF_SEED', '1')))
    d = tempfile.mkdtemp(prefix='vf-self-')
    src = '#![no_std]\nuse core::arch::asm;\n'
    for k, s in enumerate(SEQ):
        body = ['mov rax, qword ptr [{p}]', 'mov rdx, qword ptr [{p}+8]', 'mov rcx, qword ptr [{p}+16]', 'movups xmm0, xmmword ptr [{p}+24]', 'movups xmm1, xmmword ptr [{p}+40]', 'xor esi, esi'] + [x.strip() for x in s.split(';')] + [
                'mov qword ptr [{p}], rax', 'mov qword ptr [{p}+8], rdx', 'mov qword ptr [{p}+16], rcx', 'movups xmmword ptr [{p}+24], xmm0', 'movups xmmword ptr [{p}+40], xmm1']
        src += '#[no_mangle] pub unsafe extern "C" fn t%d(p: *mut u8) { asm!(%s, p = in(reg) p, out("rax") _, out("rdx") _, out("rcx") _, out("rsi") _, out("xmm0") _, out("xmm1") _, out("st(0)") _, out("st(1)") _, out("st(2)") _, out("st(3)") _, out("st(4)") _, out("st(5)") _, out("st(6)") _, out("st(7)") _); }\n' % (k, ', '.join('"%s"' % b for b in body))
    open(d + '/s.rs', 'w').write(src)
    rc, o, e = build.rustc(build.STABLE, ['--crate-type', 'lib', '--edition', '2021', '--emit', 'llvm-ir', '-Cno-prepopulate-passes', '-Copt-level=1', d + '/s.rs', '--out-dir', d]); assert rc == 0, e
    main_ = src.replace('#![no_std]\n', '') + 'fn main() { let a: Vec<String> = std::env::args().collect(); let k: usize = a[1].parse().unwrap(); let fs: &[unsafe extern "C" fn(*mut u8)] = &[%s]; for h in &a[2..] { let mut b: Vec<u8> = (0..h.len()/2).map(|i| u8::from_str_radix(&h[2*i..2*i+2], 16).unwrap()).collect(); unsafe { fs[k](b.as_mut_ptr()) }; println!("{}", b.iter().map(|x| format!("{:02x}", x)).collect::<String>()); } }\n' % ', '.join('t%d' % k for k in range(len(SEQ)))
    open(d + '/m.rs', 'w').write(main_)
    rc, o, e = build.rustc(build.STABLE, ['--edition', '2021', d + '/m.rs', '-o', d + '/m']); assert rc == 0, e
    mod = llir.parse(open(d + '/s.ll').read())
    bad = 0
    for k, s in enumerate(SEQ):
        ins = []
        for _ in range(12):
            b = bytearray(rng.choice((0, 255, rng.randrange(256))) if rng.random() < .3 else rng.randrange(256) for _ in range(96))
            r = rng.random()
            if r < .25: b[64:72] = rng.choice([b'\x01\0\0\0\0\0\xf0\x7f', b'\x01\0\0\0\0\0\xf8\xff', b'\0\0\0\0\0\0\x2e\x40', b'\x01\0\x80\x7f\0\0\0\0', b'\0\0\xc8\xc2\0\0\0\0', b'\1\0\0\0\0\0\0\0'])
            elif r < .4: b[64:72] = b[0:8]
            elif r < .5: b[8:16] = b[0:8]
            ins.append(bytes(b))
        p = subprocess.run([d + '/m', str(k)] + [b.hex() for b in ins], capture_output=True, text=True)
        got = p.stdout.split()
        for b, g in zip(ins, got):
            try:
                pass
                from vf.ops import reset_fresh; reset_fresh()
                ex = symex.Executor([mod], isa_x86.X86(64), None)
                base = 0x20000
                st = symex.State(ex); ex.loc = 'NONE'; ex.locbase = z3.BitVecVal(0x900000, 64)
                o = st.add_obj('M', 0, 96, base, 'buf')
                for i in range(96): o.write(i, 1, b[i], 0, False)
                ex.call_function(st, 't%d' % k, [(base, 0)])
                outs = [x for x in ex.run(st) if x.status == 'ret']
                exp = []
                for x in outs:
                    m = symex.check(x.pc)
                    if m is None: continue
                    r = bytearray()
                    for i in range(96):
                        v, u = x.mem['M'].read(i, 1, False)
                        r.append(v if isinstance(v, int) else m.eval(v, model_completion=True).as_long())
                    exp.append(r.hex())
                if g not in exp:
                    bad += 1; print('MISMATCH', s, '\n in ', b.hex(), '\n cpu', g, '\n enc', exp)
                    break
            except symex.Unsupported as e_:
                bad += 1; print('UNSUPPORTED', s, e_); break
    print(len(SEQ), 'sequences,', bad, 'problems')
    subprocess.run(['rm', '-rf', d])
    return bad != 0
sys.exit(main())
