import tlc2.overrides.*;
import tlc2.value.impl.*;
import java.math.BigInteger;

/** TLC evaluation of the word, byte-string and natural-number operators of
 *  Words.tla and BigNat.tla.  Checked against the TLA+ definitions by
 *  SelfCheck.tla. */
public class WordsOv implements ITLCOverrides {
  @SuppressWarnings("rawtypes")
  public Class[] get() { return new Class[] { WordsOv.class, BulkOv.class }; }
  private static IntValue iv(int x) { return IntValue.gen(x); }
  private static Value[] el(Value v) { return ((TupleValue) v.toTuple()).elems; }
  private static int in(Value v) { return ((IntValue) v).val; }
  private static long l64(Value v) { Value[] e = el(v); return ((long) in(e[0]) << 32) | (in(e[1]) & 0xffffffffL); }
  private static TupleValue v64(long x) { return new TupleValue(new Value[] { iv((int) (x >>> 32)), iv((int) x) }); }

  @TLAPlusOperator(identifier="XorB",module="Words",warn=false) public static IntValue xorb(IntValue a, IntValue b){return iv(a.val^b.val);}
  @TLAPlusOperator(identifier="AndB",module="Words",warn=false) public static IntValue andb(IntValue a, IntValue b){return iv(a.val&b.val);}
  @TLAPlusOperator(identifier="Add",module="Words",warn=false) public static IntValue add(IntValue a, IntValue b){return iv(a.val+b.val);}
  @TLAPlusOperator(identifier="Xor",module="Words",warn=false) public static IntValue xor(IntValue a, IntValue b){return iv(a.val^b.val);}
  @TLAPlusOperator(identifier="And",module="Words",warn=false) public static IntValue and(IntValue a, IntValue b){return iv(a.val&b.val);}
  @TLAPlusOperator(identifier="Or",module="Words",warn=false) public static IntValue or(IntValue a, IntValue b){return iv(a.val|b.val);}
  @TLAPlusOperator(identifier="Not",module="Words",warn=false) public static IntValue not(IntValue a){return iv(~a.val);}
  @TLAPlusOperator(identifier="RotR",module="Words",warn=false) public static IntValue rotr(IntValue a, IntValue b){return iv(Integer.rotateRight(a.val,b.val));}
  @TLAPlusOperator(identifier="RotL",module="Words",warn=false) public static IntValue rotl(IntValue a, IntValue b){return iv(Integer.rotateLeft(a.val,b.val));}
  @TLAPlusOperator(identifier="ShR",module="Words",warn=false) public static IntValue shr(IntValue a, IntValue b){return iv(b.val>31?0:a.val>>>b.val);}
  @TLAPlusOperator(identifier="ShL",module="Words",warn=false) public static IntValue shl(IntValue a, IntValue b){return iv(b.val>31?0:a.val<<b.val);}
  @TLAPlusOperator(identifier="Xor64",module="Words",warn=false) public static Value xor64(Value a, Value b){return v64(l64(a)^l64(b));}
  @TLAPlusOperator(identifier="And64",module="Words",warn=false) public static Value and64(Value a, Value b){return v64(l64(a)&l64(b));}
  @TLAPlusOperator(identifier="Not64",module="Words",warn=false) public static Value not64(Value a){return v64(~l64(a));}
  @TLAPlusOperator(identifier="Add64",module="Words",warn=false) public static Value add64(Value a, Value b){return v64(l64(a)+l64(b));}
  @TLAPlusOperator(identifier="RotR64",module="Words",warn=false) public static Value rotr64(Value a, IntValue k){return v64(Long.rotateRight(l64(a),k.val));}
  @TLAPlusOperator(identifier="RotL64",module="Words",warn=false) public static Value rotl64(Value a, IntValue k){return v64(Long.rotateLeft(l64(a),k.val));}
  @TLAPlusOperator(identifier="ShR64",module="Words",warn=false) public static Value shr64(Value a, IntValue k){return v64(k.val>63?0:l64(a)>>>k.val);}
  @TLAPlusOperator(identifier="ShL64",module="Words",warn=false) public static Value shl64(Value a, IntValue k){return v64(k.val>63?0:l64(a)<<k.val);}

  private static int be(Value[] e,int i){return in(e[i])<<24|in(e[i+1])<<16|in(e[i+2])<<8|in(e[i+3]);}
  private static int le(Value[] e,int i){return in(e[i+3])<<24|in(e[i+2])<<16|in(e[i+1])<<8|in(e[i]);}
  @TLAPlusOperator(identifier="BE",module="Words",warn=false) public static IntValue be_(Value s, IntValue i){return iv(be(el(s),i.val-1));}
  @TLAPlusOperator(identifier="LE",module="Words",warn=false) public static IntValue le_(Value s, IntValue i){return iv(le(el(s),i.val-1));}
  @TLAPlusOperator(identifier="BE64",module="Words",warn=false) public static Value be64(Value s, IntValue i){Value[] e=el(s);return new TupleValue(new Value[]{iv(be(e,i.val-1)),iv(be(e,i.val+3))});}
  @TLAPlusOperator(identifier="LE64",module="Words",warn=false) public static Value le64(Value s, IntValue i){Value[] e=el(s);return new TupleValue(new Value[]{iv(le(e,i.val+3)),iv(le(e,i.val-1))});}
  private static IntValue b(int w,int sh){return iv((w>>>sh)&255);}
  @TLAPlusOperator(identifier="UnBE",module="Words",warn=false) public static Value unbe(IntValue w){int x=w.val;return new TupleValue(new Value[]{b(x,24),b(x,16),b(x,8),b(x,0)});}
  @TLAPlusOperator(identifier="UnLE",module="Words",warn=false) public static Value unle(IntValue w){int x=w.val;return new TupleValue(new Value[]{b(x,0),b(x,8),b(x,16),b(x,24)});}
  @TLAPlusOperator(identifier="UnBE64",module="Words",warn=false) public static Value unbe64(Value w){Value[] e=el(w);int h=in(e[0]),x=in(e[1]);return new TupleValue(new Value[]{b(h,24),b(h,16),b(h,8),b(h,0),b(x,24),b(x,16),b(x,8),b(x,0)});}
  @TLAPlusOperator(identifier="UnLE64",module="Words",warn=false) public static Value unle64(Value w){Value[] e=el(w);int h=in(e[0]),x=in(e[1]);return new TupleValue(new Value[]{b(x,0),b(x,8),b(x,16),b(x,24),b(h,0),b(h,8),b(h,16),b(h,24)});}
  @TLAPlusOperator(identifier="XorSeq",module="Words",warn=false) public static Value xorseq(Value a, Value c){
    Value[] x=el(a),y=el(c);int n=Math.min(x.length,y.length);Value[] r=new Value[n];
    for(int i=0;i<n;i++)r[i]=iv(in(x[i])^in(y[i]));return new TupleValue(r);}
  @TLAPlusOperator(identifier="Eager",module="Words",warn=false) public static Value eager(Value a){ Value t=(Value)a.toTuple(); if(t==null)return a; t.deepNormalize(); return t;}

  /* ---- BigNat: naturals as big-endian byte sequences without leading zero ---- */
  private static BigInteger bi(Value v){Value[] e=el(v);byte[] r=new byte[e.length+1];for(int i=0;i<e.length;i++)r[i+1]=(byte)in(e[i]);return new BigInteger(r);}
  private static TupleValue bv(BigInteger x){
    if(x.signum()<0)throw new RuntimeException("BigNat: negative result");
    if(x.signum()==0)return new TupleValue(new Value[0]);
    byte[] r=x.toByteArray();int s=r[0]==0?1:0;Value[] e=new Value[r.length-s];
    for(int i=s;i<r.length;i++)e[i-s]=iv(r[i]&255);return new TupleValue(e);}
  @TLAPlusOperator(identifier="BNorm",module="BigNat",warn=false) public static Value bnorm(Value a){return bv(bi(a));}
  @TLAPlusOperator(identifier="BAdd",module="BigNat",warn=false) public static Value badd(Value a,Value c){return bv(bi(a).add(bi(c)));}
  @TLAPlusOperator(identifier="BSub",module="BigNat",warn=false) public static Value bsub(Value a,Value c){return bv(bi(a).subtract(bi(c)));}
  @TLAPlusOperator(identifier="BMul",module="BigNat",warn=false) public static Value bmul(Value a,Value c){return bv(bi(a).multiply(bi(c)));}
  @TLAPlusOperator(identifier="BDiv",module="BigNat",warn=false) public static Value bdiv(Value a,Value c){return bv(bi(a).divide(bi(c)));}
  @TLAPlusOperator(identifier="BMod",module="BigNat",warn=false) public static Value bmod(Value a,Value c){return bv(bi(a).mod(bi(c)));}
  @TLAPlusOperator(identifier="BLess",module="BigNat",warn=false) public static Value bless(Value a,Value c){return bi(a).compareTo(bi(c))<0?BoolValue.ValTrue:BoolValue.ValFalse;}
  @TLAPlusOperator(identifier="BPowMod",module="BigNat",warn=false) public static Value bpow(Value a,Value e,Value m){return bv(bi(a).modPow(bi(e),bi(m)));}
  @TLAPlusOperator(identifier="BGcd",module="BigNat",warn=false) public static Value bgcd(Value a,Value c){return bv(bi(a).gcd(bi(c)));}
}
