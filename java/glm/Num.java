package glm;
import tlc2.overrides.TLAPlusOperator;
import tlc2.value.impl.*;
import tlc2.value.IValue;
import util.UniqueString;
/**
 * IEEE-754 evaluation of the operators that module Num defines over the reals.
 * A real is the pair <<hi, lo>> of the two 32-bit halves of its double representation.
 */
public final class Num {
  static final String M = "Num";
  static double d(Value v) {
    TupleValue t = (TupleValue) v.toTuple();
    return Double.longBitsToDouble(((long) ((IntValue) t.elems[0]).val << 32) | (((IntValue) t.elems[1]).val & 0xffffffffL));
  }
  static Value r(double x) {
    if (Double.isNaN(x)) x = Double.NaN;
    long b = Double.doubleToLongBits(x);
    return new TupleValue(new Value[]{IntValue.gen((int) (b >> 32)), IntValue.gen((int) b)});
  }
  static double[] vec(Value v) {
    TupleValue t = (TupleValue) v.toTuple();
    double[] a = new double[t.elems.length];
    for (int i = 0; i < a.length; i++) a[i] = d(t.elems[i]);
    return a;
  }
  static double[][] mat(Value v) {
    TupleValue t = (TupleValue) v.toTuple();
    double[][] a = new double[t.elems.length][];
    for (int i = 0; i < a.length; i++) a[i] = vec(t.elems[i]);
    return a;
  }
  static Value rv(double[] a) {
    Value[] e = new Value[a.length];
    for (int i = 0; i < e.length; i++) e[i] = r(a[i]);
    return new TupleValue(e);
  }
  static Value rm(double[][] a) {
    Value[] e = new Value[a.length];
    for (int i = 0; i < e.length; i++) e[i] = rv(a[i]);
    return new TupleValue(e);
  }
  static Value b(boolean x) { return x ? BoolValue.ValTrue : BoolValue.ValFalse; }

  // ---- scalars
  @TLAPlusOperator(identifier="RInt",module=M,warn=false) public static Value RInt(Value a){return r(((IntValue)a).val);}
  @TLAPlusOperator(identifier="RDec",module=M,warn=false) public static Value RDec(Value a){return r(Double.parseDouble(((StringValue)a).val.toString()));}
  @TLAPlusOperator(identifier="RStr",module=M,warn=false) public static Value RStr(Value a){return new StringValue(Double.toString(d(a)));}
  @TLAPlusOperator(identifier="RAdd",module=M,warn=false) public static Value RAdd(Value a,Value c){return r(d(a)+d(c));}
  @TLAPlusOperator(identifier="RSub",module=M,warn=false) public static Value RSub(Value a,Value c){return r(d(a)-d(c));}
  @TLAPlusOperator(identifier="RMul",module=M,warn=false) public static Value RMul(Value a,Value c){return r(d(a)*d(c));}
  @TLAPlusOperator(identifier="RDiv",module=M,warn=false) public static Value RDiv(Value a,Value c){return r(d(a)/d(c));}
  @TLAPlusOperator(identifier="RNeg",module=M,warn=false) public static Value RNeg(Value a){return r(-d(a));}
  @TLAPlusOperator(identifier="RAbs",module=M,warn=false) public static Value RAbs(Value a){return r(Math.abs(d(a)));}
  @TLAPlusOperator(identifier="RSqrt",module=M,warn=false) public static Value RSqrt(Value a){return r(Math.sqrt(d(a)));}
  @TLAPlusOperator(identifier="RExp",module=M,warn=false) public static Value RExp(Value a){return r(Math.exp(d(a)));}
  @TLAPlusOperator(identifier="RExpm1",module=M,warn=false) public static Value RExpm1(Value a){return r(Math.expm1(d(a)));}
  @TLAPlusOperator(identifier="RLn",module=M,warn=false) public static Value RLn(Value a){return r(Math.log(d(a)));}
  @TLAPlusOperator(identifier="RLn1p",module=M,warn=false) public static Value RLn1p(Value a){return r(Math.log1p(d(a)));}
  @TLAPlusOperator(identifier="RPow",module=M,warn=false) public static Value RPow(Value a,Value c){return r(Math.pow(d(a),d(c)));}
  @TLAPlusOperator(identifier="RCbrt",module=M,warn=false) public static Value RCbrt(Value a){return r(Math.cbrt(d(a)));}
  @TLAPlusOperator(identifier="RMax",module=M,warn=false) public static Value RMax(Value a,Value c){return r(Math.max(d(a),d(c)));}
  @TLAPlusOperator(identifier="RMin",module=M,warn=false) public static Value RMin(Value a,Value c){return r(Math.min(d(a),d(c)));}
  @TLAPlusOperator(identifier="RLt",module=M,warn=false) public static Value RLt(Value a,Value c){return b(d(a)<d(c));}
  @TLAPlusOperator(identifier="RLe",module=M,warn=false) public static Value RLe(Value a,Value c){return b(d(a)<=d(c));}
  @TLAPlusOperator(identifier="REq",module=M,warn=false) public static Value REq(Value a,Value c){return b(d(a)==d(c));}
  @TLAPlusOperator(identifier="RFinite",module=M,warn=false) public static Value RFinite(Value a){double x=d(a);return b(!Double.isNaN(x)&&!Double.isInfinite(x));}
  @TLAPlusOperator(identifier="RIsNaN",module=M,warn=false) public static Value RIsNaN(Value a){return b(Double.isNaN(d(a)));}
  /** round to single precision */
  @TLAPlusOperator(identifier="RSingle",module=M,warn=false) public static Value RSingle(Value a){return r((double)(float)d(a));}

  // ---- comparison with tolerance: |a-b| <= rtol*max(|a|,|b|) + atol ; equal infinities and both-NaN are close
  static boolean close(double x,double y,double rt,double at){
    if (Double.isNaN(x)||Double.isNaN(y)) return Double.isNaN(x)&&Double.isNaN(y);
    if (x==y) return true;
    if (Double.isInfinite(x)||Double.isInfinite(y)) return false;
    return Math.abs(x-y)<=rt*Math.max(Math.abs(x),Math.abs(y))+at;
  }
  @TLAPlusOperator(identifier="RClose",module=M,warn=false) public static Value RClose(Value a,Value c,Value rt,Value at){return b(close(d(a),d(c),d(rt),d(at)));}
  @TLAPlusOperator(identifier="VClose",module=M,warn=false) public static Value VClose(Value a,Value c,Value rt,Value at){
    double[] x=vec(a),y=vec(c); if(x.length!=y.length) return b(false);
    for(int i=0;i<x.length;i++) if(!close(x[i],y[i],d(rt),d(at))) return b(false); return b(true); }
  /** vectors close relative to their largest finite entry */
  @TLAPlusOperator(identifier="VCloseN",module=M,warn=false) public static Value VCloseN(Value a,Value c,Value rt,Value at){
    double[] x=vec(a),y=vec(c); if(x.length!=y.length) return b(false);
    double s=0; for(double z:x) if(!Double.isNaN(z)&&!Double.isInfinite(z)) s=Math.max(s,Math.abs(z));
    for(int i=0;i<x.length;i++) if(!close(x[i],y[i],d(rt),d(at)+d(rt)*s)) return b(false); return b(true); }
  @TLAPlusOperator(identifier="MClose",module=M,warn=false) public static Value MClose(Value a,Value c,Value rt,Value at){
    double[][] x=mat(a),y=mat(c); if(x.length!=y.length) return b(false);
    for(int i=0;i<x.length;i++){ if(x[i].length!=y[i].length) return b(false);
      for(int j=0;j<x[i].length;j++) if(!close(x[i][j],y[i][j],d(rt),d(at))) return b(false);} return b(true); }
  /** matrices close with entry (i,j) scaled by sc[i]*sc[j] */
  @TLAPlusOperator(identifier="MCloseS",module=M,warn=false) public static Value MCloseS(Value a,Value c,Value sc,Value tol){
    double[][] x=mat(a),y=mat(c); double[] s=vec(sc); if(x.length!=y.length) return b(false);
    for(int i=0;i<x.length;i++){ if(x[i].length!=y[i].length) return b(false);
      for(int j=0;j<x[i].length;j++) if(!close(x[i][j],y[i][j],0,d(tol)*s[i]*s[j])) return b(false);} return b(true); }
  @TLAPlusOperator(identifier="AllFinite",module=M,warn=false) public static Value AllFinite(Value a){
    for(double x:vec(a)) if(Double.isNaN(x)||Double.isInfinite(x)) return b(false); return b(true); }

  // ---- vectors and matrices
  @TLAPlusOperator(identifier="Sum",module=M,warn=false) public static Value Sum(Value a){
    double s=0,c=0; for(double x:vec(a)){ double t=s+x; c+= Math.abs(s)>=Math.abs(x)?(s-t)+x:(x-t)+s; s=t; }
    return r(Double.isNaN(c)||Double.isInfinite(s)?s:s+c); }
  static double dot(double[] x,double[] y){ double s=0,c=0; for(int i=0;i<x.length;i++){ double p=x[i]*y[i],e=Math.fma(x[i],y[i],-p),t=s+p;
      c+= (Math.abs(s)>=Math.abs(p)?(s-t)+p:(p-t)+s)+e; s=t; } return Double.isNaN(c)||Double.isInfinite(s)?s:s+c; }
  @TLAPlusOperator(identifier="Dot",module=M,warn=false) public static Value Dot(Value a,Value c){return r(dot(vec(a),vec(c)));}
  interface B2 { double f(double a,double b); }
  static Value z(Value a,Value c,B2 f){ double[] x=vec(a),y=vec(c); if(x.length!=y.length) throw new RuntimeException("vector lengths "+x.length+" and "+y.length);
    double[] o=new double[x.length]; for(int i=0;i<o.length;i++) o[i]=f.f(x[i],y[i]); return rv(o); }
  @TLAPlusOperator(identifier="VAdd",module=M,warn=false) public static Value VAdd(Value a,Value c){return z(a,c,(x,y)->x+y);}
  @TLAPlusOperator(identifier="VSub",module=M,warn=false) public static Value VSub(Value a,Value c){return z(a,c,(x,y)->x-y);}
  @TLAPlusOperator(identifier="VMul",module=M,warn=false) public static Value VMul(Value a,Value c){return z(a,c,(x,y)->x*y);}
  @TLAPlusOperator(identifier="VDiv",module=M,warn=false) public static Value VDiv(Value a,Value c){return z(a,c,(x,y)->x/y);}
  @TLAPlusOperator(identifier="VScale",module=M,warn=false) public static Value VScale(Value s,Value a){double k=d(s);double[] x=vec(a);for(int i=0;i<x.length;i++)x[i]*=k;return rv(x);}
  @TLAPlusOperator(identifier="VMaxAbs",module=M,warn=false) public static Value VMaxAbs(Value a){double m=0;for(double x:vec(a))m=Double.isNaN(x)?x:Math.max(m,Math.abs(x));return r(m);}
  @TLAPlusOperator(identifier="MatVec",module=M,warn=false) public static Value MatVec(Value m,Value v){
    double[][] a=mat(m); double[] x=vec(v),o=new double[a.length]; for(int i=0;i<o.length;i++)o[i]=dot(a[i],x); return rv(o); }
  static double[][] tr(double[][] a,int cols){ double[][] t=new double[cols][a.length]; for(int i=0;i<a.length;i++)for(int j=0;j<cols;j++)t[j][i]=a[i][j]; return t; }
  @TLAPlusOperator(identifier="TMatVec",module=M,warn=false) public static Value TMatVec(Value m,Value v,Value k){
    double[][] t=tr(mat(m),((IntValue)k).val); double[] x=vec(v),o=new double[t.length]; for(int i=0;i<o.length;i++)o[i]=dot(t[i],x); return rv(o); }
  static double[][] mm(double[][] a,double[][] bm){ int n=a.length,k=bm.length==0?0:bm[0].length; double[][] t=tr(bm,k),o=new double[n][k];
    for(int i=0;i<n;i++)for(int j=0;j<k;j++)o[i][j]=dot(a[i],t[j]); return o; }
  @TLAPlusOperator(identifier="MatMul",module=M,warn=false) public static Value MatMul(Value a,Value c){return rm(mm(mat(a),mat(c)));}
  @TLAPlusOperator(identifier="MAdd",module=M,warn=false) public static Value MAdd(Value a,Value c){double[][] x=mat(a),y=mat(c);
    for(int i=0;i<x.length;i++)for(int j=0;j<x[i].length;j++)x[i][j]+=y[i][j]; return rm(x);}
  @TLAPlusOperator(identifier="MScale",module=M,warn=false) public static Value MScale(Value s,Value a){double k=d(s);double[][] x=mat(a);
    for(double[] row:x)for(int j=0;j<row.length;j++)row[j]*=k; return rm(x);}
  @TLAPlusOperator(identifier="MDiag",module=M,warn=false) public static Value MDiag(Value v){double[] x=vec(v);double[][] o=new double[x.length][x.length];
    for(int i=0;i<x.length;i++)o[i][i]=x[i]; return rm(o);}
  /** X' diag(w) X for X with k columns */
  @TLAPlusOperator(identifier="Gram",module=M,warn=false) public static Value Gram(Value m,Value w,Value k){
    double[][] a=mat(m); double[] u=vec(w); int kk=((IntValue)k).val; double[][] t=tr(a,kk),o=new double[kk][kk]; double[] tmp=new double[a.length];
    for(int i=0;i<kk;i++){ for(int l=0;l<tmp.length;l++)tmp[l]=t[i][l]*u[l]; for(int j=0;j<kk;j++)o[i][j]=dot(tmp,t[j]); } return rm(o); }
  /** Gauss-Jordan with row/column equilibration and full partial pivoting; NaN matrix when singular */
  static double[][] inv(double[][] a0){
    int n=a0.length; double[][] a=new double[n][2*n]; double[] s=new double[n];
    for(int i=0;i<n;i++){ double q=Math.abs(a0[i][i]); s[i]=q>0&&!Double.isInfinite(q)&&!Double.isNaN(q)?1/Math.sqrt(q):1; }
    for(int i=0;i<n;i++){ for(int j=0;j<n;j++)a[i][j]=a0[i][j]*s[i]*s[j]; a[i][n+i]=1; }
    for(int c=0;c<n;c++){ int p=c; for(int i=c+1;i<n;i++)if(Math.abs(a[i][c])>Math.abs(a[p][c]))p=i;
      double[] t=a[c];a[c]=a[p];a[p]=t; double pv=a[c][c];
      if(!(Math.abs(pv)>1e-300)){ double[][] o=new double[n][n]; for(double[] row:o)java.util.Arrays.fill(row,Double.NaN); return o; }
      for(int j=0;j<2*n;j++)a[c][j]/=pv;
      for(int i=0;i<n;i++)if(i!=c){ double f=a[i][c]; if(f!=0)for(int j=0;j<2*n;j++)a[i][j]-=f*a[c][j]; } }
    double[][] o=new double[n][n]; for(int i=0;i<n;i++)for(int j=0;j<n;j++)o[i][j]=a[i][n+j]*s[i]*s[j]; return o; }
  @TLAPlusOperator(identifier="MInv",module=M,warn=false) public static Value MInv(Value m){return rm(inv(mat(m)));}
  /** solve A x = b with one step of iterative refinement */
  @TLAPlusOperator(identifier="MSolve",module=M,warn=false) public static Value MSolve(Value m,Value v){
    double[][] a=mat(m),ai=inv(a); double[] bb=vec(v); int n=bb.length; double[] x=new double[n];
    for(int it=0;it<3;it++){ double[] res=new double[n]; for(int i=0;i<n;i++){ double[] ax=new double[n+1],xx=new double[n+1];
        for(int j=0;j<n;j++){ax[j]=-a[i][j];xx[j]=x[j];} ax[n]=1;xx[n]=bb[i]; res[i]=dot(ax,xx); }
      for(int i=0;i<n;i++)x[i]+=dot(ai[i],res); }
    return rv(x); }
  /** condition number (1-norm) of the diagonally equilibrated symmetric matrix; Infinity when singular */
  @TLAPlusOperator(identifier="CondEq",module=M,warn=false) public static Value CondEq(Value m){
    double[][] a=mat(m); int n=a.length; double[] s=new double[n];
    for(int i=0;i<n;i++){ if(!(a[i][i]>0)) return r(Double.POSITIVE_INFINITY); s[i]=1/Math.sqrt(a[i][i]); }
    for(int i=0;i<n;i++)for(int j=0;j<n;j++)a[i][j]*=s[i]*s[j];
    double c=norm1(a)*norm1(inv(a)); return r(Double.isNaN(c)?Double.POSITIVE_INFINITY:c); }
  static double norm1(double[][] a){ double m=0; for(int j=0;j<a.length;j++){ double t=0; for(double[] row:a)t+=Math.abs(row[j]); m=Double.isNaN(t)?t:Math.max(m,t);} return m; }
  /** smallest eigenvalue of a symmetric matrix (Jacobi) */
  @TLAPlusOperator(identifier="MinEig",module=M,warn=false) public static Value MinEig(Value m){
    double[][] a=mat(m); int n=a.length; for(double[] row:a)for(double x:row)if(Double.isNaN(x)||Double.isInfinite(x))return r(Double.NaN);
    for(int sweep=0;sweep<60;sweep++){ double off=0; for(int i=0;i<n;i++)for(int j=i+1;j<n;j++)off+=a[i][j]*a[i][j]; if(off<1e-300)break;
      for(int p=0;p<n;p++)for(int q=p+1;q<n;q++){ if(a[p][q]==0)continue; double th=(a[q][q]-a[p][p])/(2*a[p][q]);
        double t=Math.signum(th)/(Math.abs(th)+Math.sqrt(th*th+1)); if(th==0)t=1; double c=1/Math.sqrt(t*t+1),s=t*c;
        for(int k=0;k<n;k++){ double x=a[k][p],y=a[k][q]; a[k][p]=c*x-s*y; a[k][q]=s*x+c*y; }
        for(int k=0;k<n;k++){ double x=a[p][k],y=a[q][k]; a[p][k]=c*x-s*y; a[q][k]=s*x+c*y; } } }
    double mn=Double.POSITIVE_INFINITY; for(int i=0;i<n;i++)mn=Math.min(mn,a[i][i]); return r(mn); }

  // ---- distributions
  @TLAPlusOperator(identifier="NormSf",module=M,warn=false) public static Value NormSf(Value z){return r(Sp.normSf(d(z)));}
  @TLAPlusOperator(identifier="NormCdf",module=M,warn=false) public static Value NormCdf(Value z){return r(Sp.normCdf(d(z)));}
  @TLAPlusOperator(identifier="NormQuantile",module=M,warn=false) public static Value NormQuantile(Value p){return r(Sp.normQ(d(p)));}
  @TLAPlusOperator(identifier="ChiSqSf",module=M,warn=false) public static Value ChiSqSf(Value x,Value k){return r(Sp.chiSf(d(x),d(k)));}
  @TLAPlusOperator(identifier="TSf2",module=M,warn=false) public static Value TSf2(Value t,Value k){return r(Sp.tSf2(d(t),d(k)));}
  @TLAPlusOperator(identifier="FSf",module=M,warn=false) public static Value FSf(Value f,Value a,Value c){return r(Sp.fSf(d(f),d(a),d(c)));}
  @TLAPlusOperator(identifier="GammaCdf",module=M,warn=false) public static Value GammaCdf(Value x,Value shape,Value rate){return r(Sp.gammaP(d(shape),d(x)*d(rate)));}

  /** pseudo-random member of 0..n-1, a function of the path alone */
  @TLAPlusOperator(identifier="Draw",module="Gen",warn=false) public static Value Draw(Value path,Value n){
    long h=0xcbf29ce484222325L; String t=path.toString(); for(int i=0;i<t.length();i++){h^=t.charAt(i);h*=0x100000001b3L;}
    h^=h>>>33;h*=0xff51afd7ed558ccdL;h^=h>>>33;h*=0xc4ceb9fe1a85ec53L;h^=h>>>33;
    return IntValue.gen((int)Long.remainderUnsigned(h,((IntValue)n).val)); }
}
