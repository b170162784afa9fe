#!/usr/bin/env python3
"""Writes spec/Consts.tla: the SHA-2/SHA-1 round constants and initial values, derived
from their definitions (fractional parts of roots of primes), never copied from /repo."""
from math import isqrt
def primes(n):
    r=[];k=2
    while len(r)<n:
        if all(k%p for p in r): r.append(k)
        k+=1
    return r
def icbrt(n):
    lo,hi=0,1<<((n.bit_length()+2)//3+1)
    while lo<hi:
        m=(lo+hi+1)//2
        if m**3<=n: lo=m
        else: hi=m-1
    return lo
def fsqrt(p,b): return isqrt(p<<(2*b)) & ((1<<b)-1)
def fcbrt(p,b): return icbrt(p<<(3*b)) & ((1<<b)-1)
P=primes(80)
def w(v,b): return "<<"+",".join(str((v>>s)&0xffff) for s in range(b-16,-1,-16))+">>"
def seq(name,vs,b):
    out=[f"{name} == <<"]
    for i in range(0,len(vs),4): out.append("  "+", ".join(w(v,b) for v in vs[i:i+4])+("," if i+4<len(vs) else ""))
    return "\n".join(out)+">>\n"
# SHA-512/256 initial value is NOT tabulated: spec/Sha512.tla defines it by the FIPS 180-4 IV generation function.
t=["---------------------------- MODULE Consts ----------------------------",
"\\* Generated by tools/genconst.py from the definitions in FIPS 180-4 (fractional parts of",
"\\* square and cube roots of primes). Words are big-endian sequences of 16-bit limbs.",
"EXTENDS Naturals, Sequences",""]
t.append(seq("K256",[fcbrt(p,32) for p in P[:64]],32))
t.append(seq("IV256",[fsqrt(p,32) for p in P[:8]],32))
t.append(seq("K512",[fcbrt(p,64) for p in P[:80]],64))
t.append(seq("IV512",[fsqrt(p,64) for p in P[:8]],64))
t.append(seq("IV384",[fsqrt(p,64) for p in P[8:16]],64))
# SHA-1 / RIPEMD-160: floor(2^30*sqrt(k)), floor(2^30*cbrt(k))
t.append(seq("K1",[isqrt(k<<60) for k in (2,3,5,10)],32))
t.append(seq("KRL",[0]+[isqrt(k<<60) for k in (2,3,5,7)],32))
t.append(seq("KRR",[icbrt(k<<90) for k in (2,3,5,7)]+[0],32))
t.append(seq("IVMD",[0x67452301,0xefcdab89,0x98badcfe,0x10325476,0xc3d2e1f0],32))
t.append("=======================================================================\n")
import os
open(os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","spec","Consts.tla"),"w").write("\n".join(t))
