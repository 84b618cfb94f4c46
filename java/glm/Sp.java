package glm;
/** Special functions, written independently of the crates the implementation uses. */
final class Sp {
  private static final double[] LG = {76.18009172947146,-86.50532032941677,24.01409824083091,
      -1.231739572450155,0.1208650973866179e-2,-0.5395239384953e-5};
  static double lnGamma(double x) {
    // Stirling series after shifting the argument above 15: relative error ~1e-16.
    if (x <= 0) return Double.NaN;
    double shift = 0, z = x;
    if (z < 15) { double p = 1; while (z < 15) { p *= z; z += 1; } shift = Math.log(p); }
    double z2 = z*z, s = 1/(12*z) - 1/(360*z*z2) + 1/(1260*z*z2*z2) - 1/(1680*z*z2*z2*z2)
        + 1/(1188*z*z2*z2*z2*z2);
    return (z-0.5)*Math.log(z) - z + 0.91893853320467274178 + s - shift;
  }
  /** regularised lower incomplete gamma */
  static double gammaP(double a, double x) {
    if (Double.isNaN(a)||Double.isNaN(x)) return Double.NaN;
    if (x <= 0) return 0; if (Double.isInfinite(x)) return 1;
    return x < a+1 ? gser(a,x) : 1-gcf(a,x);
  }
  static double gammaQ(double a, double x) {
    if (Double.isNaN(a)||Double.isNaN(x)) return Double.NaN;
    if (x <= 0) return 1; if (Double.isInfinite(x)) return 0;
    return x < a+1 ? 1-gser(a,x) : gcf(a,x);
  }
  private static double pre(double a,double x){ return Math.exp(-x + a*Math.log(x) - lnGamma(a)); }
  private static double gser(double a,double x){
    double ap=a,sum=1/a,del=sum;
    for(int n=0;n<200000;n++){ ap+=1; del*=x/ap; sum+=del; if(Math.abs(del)<Math.abs(sum)*1e-17) break; }
    return sum*pre(a,x);
  }
  private static double gcf(double a,double x){
    double tiny=1e-300,b=x+1-a,c=1/tiny,d=1/b,h=d;
    for(int i=1;i<200000;i++){ double an=-i*(i-a); b+=2; d=an*d+b; if(Math.abs(d)<tiny)d=tiny;
      c=b+an/c; if(Math.abs(c)<tiny)c=tiny; d=1/d; double del=d*c; h*=del; if(Math.abs(del-1)<1e-16)break; }
    return pre(a,x)*h;
  }
  static double erfc(double x){ return x>=0 ? gammaQ(0.5,x*x) : 1+gammaP(0.5,x*x); }
  static double normSf(double z){ return 0.5*erfc(z/Math.sqrt(2)); }
  static double normCdf(double z){ return 0.5*erfc(-z/Math.sqrt(2)); }
  /** standard normal quantile by bracketing + Newton on the accurate cdf */
  static double normQ(double p){
    if (Double.isNaN(p)||p<0||p>1) return Double.NaN;
    if (p==0) return Double.NEGATIVE_INFINITY; if (p==1) return Double.POSITIVE_INFINITY;
    if (p==0.5) return 0;
    boolean up=p>0.5; double q=up?1-p:p;          // solve sf(z)=q, z>0
    double lo=0,hi=40;
    for(int i=0;i<200;i++){ double m=0.5*(lo+hi); if(normSf(m)>q) lo=m; else hi=m; if(hi-lo<1e-15*Math.max(1,hi))break; }
    double z=0.5*(lo+hi); return up?z:-z;
  }
  /** regularised incomplete beta */
  static double betaI(double a,double b,double x){
    if (Double.isNaN(a)||Double.isNaN(b)||Double.isNaN(x)) return Double.NaN;
    if (x<=0) return 0; if (x>=1) return 1;
    double bt=Math.exp(lnGamma(a+b)-lnGamma(a)-lnGamma(b)+a*Math.log(x)+b*Math.log1p(-x));
    return x<(a+1)/(a+b+2) ? bt*bcf(a,b,x)/a : 1-bt*bcf(b,a,1-x)/b;
  }
  private static double bcf(double a,double b,double x){
    double tiny=1e-300,qab=a+b,qap=a+1,qam=a-1,c=1,d=1-qab*x/qap; if(Math.abs(d)<tiny)d=tiny; d=1/d; double h=d;
    for(int m=1;m<100000;m++){ int m2=2*m; double aa=m*(b-m)*x/((qam+m2)*(a+m2));
      d=1+aa*d; if(Math.abs(d)<tiny)d=tiny; c=1+aa/c; if(Math.abs(c)<tiny)c=tiny; d=1/d; h*=d*c;
      aa=-(a+m)*(qab+m)*x/((a+m2)*(qap+m2));
      d=1+aa*d; if(Math.abs(d)<tiny)d=tiny; c=1+aa/c; if(Math.abs(c)<tiny)c=tiny; d=1/d; double del=d*c; h*=del;
      if(Math.abs(del-1)<1e-16)break; }
    return h;
  }
  static double tSf2(double t,double df){ return betaI(df/2,0.5,df/(df+t*t)); }
  static double fSf(double f,double d1,double d2){ return f<=0?1:betaI(d2/2,d1/2,d2/(d2+d1*f)); }
  static double chiSf(double x,double k){ return gammaQ(k/2,x/2); }
}
