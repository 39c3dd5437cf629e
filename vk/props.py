from .core import Gen
from . import p_cipher as pc, p_trans as pt, p_hash as ph, p_aead as pa, p_zlib as pz, p_util as pu, p_pub as pp, p_wipe as pw, p_gc as pg, p_var as pv, p_big as pb, p_res as pr
HS=("hw","sw")
# ---- the models checked exhaustively along with each property
def laws(part): return ("Laws",'CONSTANT Part = "%s"\nINIT Init\nNEXT Next\nINVARIANT Holds\nCHECK_DEADLOCK FALSE\n'%part,{})
def selfc(part): return ("SelfCheck",'CONSTANT Part = "%s"\nINIT Init\nNEXT Next\nINVARIANT Agrees\nCHECK_DEADLOCK FALSE\n'%part,{})
def mech(part,lim,deep=None):
    f=lambda l,o:("Mech",'CONSTANTS Part = "%s"\n Lim = %d\nINIT Init\nNEXT Next\nINVARIANT Inv\nCHECK_DEADLOCK FALSE\n'%(part,l),o)
    return [f(lim,{})]+([f(deep,{"thorough":True})] if deep else [])
def life(fam,mi,mp,deep=None):
    f=lambda a,b,o:("Life",'CONSTANTS Family = "%s"\n MaxIn = %d\n MaxPut = %d\nINIT Init\nNEXT Next\nINVARIANTS Whole Prefix Flushed InvertsBack PadLen\nCHECK_DEADLOCK FALSE\n'%(fam,a,b),o)
    return [f(mi,mp,{})]+([f(deep[0],deep[1],{"thorough":True,"workers":4})] if deep else [])
PROPS={
 "C01":Gen(pc.c01,[laws("cipher"),selfc("words")],HS),
 "C02":Gen(pc.c02,[laws("mode"),*mech("ctr",0),*life("chain",4,2,(6,3))],HS),
 "C03":Gen(pc.c03,[laws("pad"),*life("pad",4,2,(6,3))],HS),
 "C04":Gen(pt.c04,[*mech("obuf",9,14),*life("codec",5,3,(7,3))]),
 "C05":Gen(pc.c05,[*mech("keyst",40,80),*life("stream",30,29,(150,64))],HS),
 "C06":Gen(ph.c06,[selfc("words"),laws("mac")],HS),
 "C07":Gen(ph.c07,[*mech("hbuf",25,60),*mech("lazy",25,60),*mech("tree",40,150),*life("hash",5,3,(9,5))],HS),
 "C08":Gen(ph.c08,[laws("mac"),*life("hash",5,3,(9,5))],HS),
 "C09":Gen(pa.c09,[*life("aead",20,17,(80,64)),laws("tamper")],HS),
 "C10":Gen(pa.c10,[*life("auth",4,2,(6,3)),laws("tamper")],HS),
 "C11":Gen(pt.c11,[*life("comp",4,2,(6,3)),*life("comp3",3,2,(5,2))],HS),
 "C12":Gen(pt.c12,[laws("codec"),*life("codec",5,3,(7,3))]),
 "C13":Gen(pz.c13,[laws("inflate")]),
 "C14":Gen(pu.c14,[*mech("rng",5,8),*mech("keyst",40,80)],HS+pv.SIM),
 "C15":Gen(pp.c15,[laws("pub"),selfc("bignat")]),
 "C16":Gen(pp.c16,[laws("pub")]),
 "C17":Gen(pp.c17,[laws("pub")]),
 "C18":Gen(pu.c18,[selfc("bignat"),laws("pub")],HS),
 "C19":Gen(pu.c19,[*mech("range",0)],("hw","sw","asan")),
 "C20":Gen(pw.c20,[*mech("wipe",7,12)],HS),
 "C21":Gen(pg.c21,[*life("two",2,1,(3,2))],HS),
 "C22":Gen(pv.c22,[laws("table")],pv.VARS+pv.SIM),
 "C24":Gen(pr.c24,[*mech("res",3,4)],("hw","sw","asan")),
 "C23":Gen(pb.c23,[selfc("bulk"),*mech("count",600,2000)],HS),
}
