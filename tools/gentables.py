#!/usr/bin/env python3
"""Generates spec/Tables.tla: the constants of the standards, derived from their
definitions (pi, square/cube roots, sine, LFSR) or transcribed from the standard
(DES, RIPEMD-160, BLAKE permutations) -- never taken from /repo."""
import math,os
from decimal import Decimal,getcontext
def s32(x): x&=0xffffffff; return x-2**32 if x>=2**31 else x
def w64(x): return "<<%d,%d>>"%(s32(x>>32),s32(x))
def seq(l,per=8):
    l=[str(x) for x in l]
    return "<<\n  "+",\n  ".join(",".join(l[i:i+per]) for i in range(0,len(l),per))+">>"
def primes(n):
    r=[];k=2
    while len(r)<n:
        if all(k%p for p in r): r.append(k)
        k+=1
    return r
def iroot(n,k):
    lo,hi=0,1<<(n.bit_length()//k+2)
    while lo<hi:
        m=(lo+hi+1)//2
        if m**k<=n: lo=m
        else: hi=m-1
    return lo
def frac(p,k,bits): return iroot(p<<(bits*k),k)&((1<<bits)-1)
def pi_hex(bits):
    # Machin: pi = 16 atan(1/5) - 4 atan(1/239)
    prec=bits+64
    def atan_inv(x):
        t=(1<<prec)//x; r=t; n=3; s=-1
        while t:
            t//=x*x; r+=s*(t//n); n+=2; s=-s
        return r
    pi=16*atan_inv(5)-4*atan_inv(239)
    return (pi-(3<<prec))>>(prec-bits)
out=[]
def d(name,val): out.append("%s == %s\n"%(name,val))
P=primes(80)
d("K256",seq([s32(frac(p,3,32)) for p in P[:64]]))
d("H256",seq([s32(frac(p,2,32)) for p in P[:8]]))
d("H224",seq([s32(frac(p,2,64)) for p in P[8:16]]))
d("K512",seq([w64(frac(p,3,64)) for p in P[:80]],4))
d("H512",seq([w64(frac(p,2,64)) for p in P[:8]],4))
d("H384",seq([w64(frac(p,2,64)) for p in P[8:16]],4))
getcontext().prec=50
d("TMD5",seq([s32(int(abs(math.sin(i+1))*2**32)) for i in range(64)]))
nw=18+1024
pi=pi_hex(nw*32)
words=[s32(pi>>(32*(nw-1-i))) for i in range(nw)]
d("BFP",seq(words[:18])); d("BFS",seq(words[18:]))
# Keccak round constants by LFSR, rotation offsets
def lfsr():
    R=1
    while True:
        yield R&1
        R=(R<<1)^((R>>7)*0x171)
g=lfsr(); rc=[]
for r in range(24):
    c=0
    for j in range(7):
        if next(g): c|=1<<((1<<j)-1)
    rc.append(c)
d("KRC",seq([w64(c) for c in rc],4))
rot=[[0]*5 for _ in range(5)]; x,y=1,0
for t in range(24):
    rot[x][y]=((t+1)*(t+2)//2)%64; x,y=y,(2*x+3*y)%5
d("KROT","\\* indexed 1 + x + 5*y\n  "+seq([rot[x][y] for y in range(5) for x in range(5)],5))
# DES (FIPS 46-3)
IP=[58,50,42,34,26,18,10,2,60,52,44,36,28,20,12,4,62,54,46,38,30,22,14,6,64,56,48,40,32,24,16,8,57,49,41,33,25,17,9,1,59,51,43,35,27,19,11,3,61,53,45,37,29,21,13,5,63,55,47,39,31,23,15,7]
FP=[40,8,48,16,56,24,64,32,39,7,47,15,55,23,63,31,38,6,46,14,54,22,62,30,37,5,45,13,53,21,61,29,36,4,44,12,52,20,60,28,35,3,43,11,51,19,59,27,34,2,42,10,50,18,58,26,33,1,41,9,49,17,57,25]
E=[32,1,2,3,4,5,4,5,6,7,8,9,8,9,10,11,12,13,12,13,14,15,16,17,16,17,18,19,20,21,20,21,22,23,24,25,24,25,26,27,28,29,28,29,30,31,32,1]
PP=[16,7,20,21,29,12,28,17,1,15,23,26,5,18,31,10,2,8,24,14,32,27,3,9,19,13,30,6,22,11,4,25]
PC1=[57,49,41,33,25,17,9,1,58,50,42,34,26,18,10,2,59,51,43,35,27,19,11,3,60,52,44,36,63,55,47,39,31,23,15,7,62,54,46,38,30,22,14,6,61,53,45,37,29,21,13,5,28,20,12,4]
PC2=[14,17,11,24,1,5,3,28,15,6,21,10,23,19,12,4,26,8,16,7,27,20,13,2,41,52,31,37,47,55,30,40,51,45,33,48,44,49,39,56,34,53,46,42,50,36,29,32]
SH=[1,1,2,2,2,2,2,2,1,2,2,2,2,2,2,1]
S=[
[14,4,13,1,2,15,11,8,3,10,6,12,5,9,0,7,0,15,7,4,14,2,13,1,10,6,12,11,9,5,3,8,4,1,14,8,13,6,2,11,15,12,9,7,3,10,5,0,15,12,8,2,4,9,1,7,5,11,3,14,10,0,6,13],
[15,1,8,14,6,11,3,4,9,7,2,13,12,0,5,10,3,13,4,7,15,2,8,14,12,0,1,10,6,9,11,5,0,14,7,11,10,4,13,1,5,8,12,6,9,3,2,15,13,8,10,1,3,15,4,2,11,6,7,12,0,5,14,9],
[10,0,9,14,6,3,15,5,1,13,12,7,11,4,2,8,13,7,0,9,3,4,6,10,2,8,5,14,12,11,15,1,13,6,4,9,8,15,3,0,11,1,2,12,5,10,14,7,1,10,13,0,6,9,8,7,4,15,14,3,11,5,2,12],
[7,13,14,3,0,6,9,10,1,2,8,5,11,12,4,15,13,8,11,5,6,15,0,3,4,7,2,12,1,10,14,9,10,6,9,0,12,11,7,13,15,1,3,14,5,2,8,4,3,15,0,6,10,1,13,8,9,4,5,11,12,7,2,14],
[2,12,4,1,7,10,11,6,8,5,3,15,13,0,14,9,14,11,2,12,4,7,13,1,5,0,15,10,3,9,8,6,4,2,1,11,10,13,7,8,15,9,12,5,6,3,0,14,11,8,12,7,1,14,2,13,6,15,0,9,10,4,5,3],
[12,1,10,15,9,2,6,8,0,13,3,4,14,7,5,11,10,15,4,2,7,12,9,5,6,1,13,14,0,11,3,8,9,14,15,5,2,8,12,3,7,0,4,10,1,13,11,6,4,3,2,12,9,5,15,10,11,14,1,7,6,0,8,13],
[4,11,2,14,15,0,8,13,3,12,9,7,5,10,6,1,13,0,11,7,4,9,1,10,14,3,5,12,2,15,8,6,1,4,11,13,12,3,7,14,10,15,6,8,0,5,9,2,6,11,13,8,1,4,10,7,9,5,0,15,14,2,3,12],
[13,2,8,4,6,15,11,1,10,9,3,14,5,0,12,7,1,15,13,8,10,3,7,4,12,5,6,11,0,14,9,2,7,11,4,1,9,12,14,2,0,6,10,13,15,3,5,8,2,1,14,7,4,10,8,13,15,12,9,0,3,5,6,11]]
for n,v in(("DESIP",IP),("DESFP",FP),("DESE",E),("DESP",PP),("DESPC1",PC1),("DESPC2",PC2),("DESSH",SH)): d(n,seq(v,16))
d("DESS","<<"+",\n ".join(seq(x,16) for x in S)+">>")
# RIPEMD-160
R1=list(range(16))
rho=[7,4,13,1,10,6,15,3,12,0,9,5,2,14,11,8]
rl=[R1]
for i in range(4): rl.append([rho[x] if False else x for x in [rl[-1][rho[j]] if False else rl[-1][rho[j]] for j in range(16)]])
pi_=[(9*i+5)%16 for i in range(16)]
rr=[pi_]
for i in range(4): rr.append([rr[-1][rho[j]] for j in range(16)])
# r(j) composition: permutation applied in each round: rho^k, resp. pi then rho^k
def comp(base,k):
    cur=list(range(16))
    for _ in range(k): cur=[rho[c] for c in cur]
    return cur
def powrho(j,k):
    for _ in range(k): j=rho[j]
    return j
RL=[powrho(j,k) for k in range(5) for j in range(16)]
RR=[powrho(pi_[j],k) for k in range(5) for j in range(16)]
RL=[ [0,1,2,3,4,5,6,7,8,9,10,11,12,13,14,15],
     [7,4,13,1,10,6,15,3,12,0,9,5,2,14,11,8],
     [3,10,14,4,9,15,8,1,2,7,0,6,13,11,5,12],
     [1,9,11,10,0,8,12,4,13,3,7,15,14,5,6,2],
     [4,0,5,9,7,12,2,10,14,1,3,8,11,6,15,13]]
RR=[ [5,14,7,0,9,2,11,4,13,6,15,8,1,10,3,12],
     [6,11,3,7,0,13,5,10,14,15,8,12,4,9,1,2],
     [15,5,1,3,7,14,6,9,11,8,12,2,10,0,4,13],
     [8,6,4,1,3,11,15,0,5,12,2,13,9,7,10,14],
     [12,15,10,4,1,5,8,7,6,2,13,14,0,3,9,11]]
for k in range(5):
    for j in range(16):
        assert RL[k][j]==powrho(j,k)
        assert RR[k][j]==powrho(pi_[j],k)
SL=[[11,14,15,12,5,8,7,9,11,13,14,15,6,7,9,8],[7,6,8,13,11,9,7,15,7,12,15,9,11,7,13,12],[11,13,6,7,14,9,13,15,14,8,13,6,5,12,7,5],[11,12,14,15,14,15,9,8,9,14,5,6,8,6,5,12],[9,15,5,11,6,8,13,12,5,12,13,14,11,8,5,6]]
SR=[[8,9,9,11,13,15,15,5,7,7,8,11,14,14,12,6],[9,13,15,7,12,8,9,11,7,7,12,7,6,15,13,11],[9,7,15,11,8,6,6,14,12,13,5,14,13,13,7,5],[15,5,8,11,14,14,6,14,6,9,12,9,12,5,15,8],[8,5,12,9,12,5,14,6,8,13,6,5,15,13,11,11]]
fl=lambda m:[x for r in m for x in r]
d("RMDRL",seq(fl(RL),16)); d("RMDRR",seq(fl(RR),16)); d("RMDSL",seq(fl(SL),16)); d("RMDSR",seq(fl(SR),16))
d("RMDKL",seq([s32(c) for c in(0,math.isqrt(2<<60),math.isqrt(3<<60),math.isqrt(5<<60),math.isqrt(7<<60))]))
d("RMDKR",seq([s32(c) for c in(iroot(2<<90,3),iroot(3<<90,3),iroot(5<<90,3),iroot(7<<90,3),0)]))
# BLAKE2 sigma
SIG=[[0,1,2,3,4,5,6,7,8,9,10,11,12,13,14,15],[14,10,4,8,9,15,13,6,1,12,0,2,11,7,5,3],[11,8,12,0,5,2,15,13,10,14,3,6,7,1,9,4],[7,9,3,1,13,12,11,14,2,6,5,10,4,0,15,8],[9,0,5,7,2,4,10,15,14,1,11,12,6,8,3,13],[2,12,6,10,0,11,8,3,4,13,7,5,15,14,1,9],[12,5,1,15,14,13,4,10,0,7,6,3,9,2,8,11],[13,11,7,14,12,1,3,9,5,0,15,4,8,6,2,10],[6,15,14,9,11,3,0,8,12,2,13,7,1,4,10,5],[10,2,8,4,7,6,1,5,15,11,9,14,3,12,13,0]]
for r in SIG: assert sorted(r)==list(range(16))
d("SIGMA","<<"+",\n ".join(seq(x,16) for x in SIG)+">>")
d("B3PERM",seq([2,6,3,10,7,0,4,13,1,11,12,5,9,14,15,8],16))
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","spec","Tables.tla"),"w") as f:
    f.write("------------------------------- MODULE Tables -------------------------------\nEXTENDS Integers\n(* Constants of the standards.  Generated by tools/gentables.py; do not edit. *)\n")
    f.write("\n".join(out).replace("-2147483648","(-2147483647-1)")); f.write("=============================================================================\n")
