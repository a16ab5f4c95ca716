// Shared parts of the monitors: random source, mesh generator, reporting. Independent of the code under test.
#ifndef VF_COMMON_H
#define VF_COMMON_H
#include <cstdio>
#include <cstdlib>
#include <cstdarg>
#include <cstdint>
#include <cmath>
#include <cstring>
#include <string>
#include <vector>
#include <array>
#include <map>
#include <set>
#include <algorithm>
#include <functional>
#include <unistd.h>
#include <fcntl.h>
#include <sys/stat.h>
#include <petscksp.h>

namespace vf {

struct Rng {
	uint64_t s;
	explicit Rng(uint64_t seed=1) : s(seed*0x9E3779B97F4A7C15ull+0x1234567ull) { next(); next(); }
	uint64_t next() { uint64_t z=(s+=0x9E3779B97F4A7C15ull); z=(z^(z>>30))*0xBF58476D1CE4E5B9ull; z=(z^(z>>27))*0x94D049BB133111EBull; return z^(z>>31); }
	double u() { return (next()>>11)*(1.0/9007199254740992.0); }
	double u(double a,double b) { return a+(b-a)*u(); }
	double lu(double a,double b) { return a*std::pow(b/a,u()); }
	int i(int a,int b) { return a+(int)(next()%(uint64_t)(b-a+1)); }  // inclusive
	bool p(double pr) { return u()<pr; }
	double n() { double a=u(),b=u(); return std::sqrt(-2*std::log(a+1e-300))*std::cos(2*M_PI*b); }
	template<class T> void shuffle(std::vector<T>& v) { for(int k=(int)v.size()-1;k>0;k--) std::swap(v[k],v[i(0,k)]); }
	template<class T> const T& pick(const std::vector<T>& v) { return v[i(0,(int)v.size()-1)]; }
};
inline uint64_t mix(uint64_t a,uint64_t b) { Rng r(a*1000003ull+b); return r.next(); }
inline uint64_t hashd(const double*v,size_t n) { uint64_t h=1469598103934665603ull; for(size_t i=0;i<n*sizeof(double);i++) { h^=((const unsigned char*)v)[i]; h*=1099511628211ull; } return h; }
inline uint64_t hashs(const std::string& s) { uint64_t h=1469598103934665603ull; for(unsigned char c:s) { h^=c; h*=1099511628211ull; } return h; }

struct Rep {
	FILE *out=nullptr; int rank=0,nproc=1;
	long evals=0; std::set<uint64_t> sigs; std::vector<std::string> samples; std::map<std::string,double> cnt; std::map<std::string,double> mx;
	std::map<std::string,int> vcount; std::string cur; int nviol=0;
	// under mpirun every rank reports into a file of its own: the launcher mixes the ranks' output
	void init() { if(out) return; int fd=-1; const char*od=getenv("VF_OUTDIR"),*rk=getenv("OMPI_COMM_WORLD_RANK");
		if(od&&rk) fd=open((std::string(od)+"/rank."+rk).c_str(),O_WRONLY|O_CREAT|O_APPEND,0644);
		if(fd<0) fd=dup(1); out=fdopen(fd,"w"); setvbuf(out,nullptr,_IOLBF,0); if(!getenv("VF_VERBOSE")) { int nl=open("/dev/null",O_WRONLY); dup2(nl,1); if(!getenv("VF_STDERR")&&!getenv("VF_KEEPERR")){} } }
	// describe the running case, so that a crash or hang can be attributed
	void at(const std::string& c) { cur=c; if(rank==0) { fprintf(out,"@C %s\n",c.c_str()); } }
	void viol(const std::string& key,const char *fmt,...) {
		char b[3000]; va_list a; va_start(a,fmt); vsnprintf(b,sizeof b,fmt,a); va_end(a);
		nviol++; if(vcount[key]++<3) fprintf(out,"@V %s | %s | case: %s\n",key.c_str(),b,cur.c_str());
	}
	void eval(uint64_t sig,bool nontrivial=true) { evals++; if(nontrivial) sigs.insert(sig); }
	void count(const std::string& k,double n=1) { cnt[k]+=n; }
	void maxi(const std::string& k,double v) { auto it=mx.find(k); if(it==mx.end()||v>it->second) mx[k]=v; }
	void sample(const std::string& s) { if(samples.size()<6) samples.push_back(s); }
	static std::string esc(const std::string& s) { std::string r; for(char c:s) { if(c=='"'||c=='\\') r+='\\'; if((unsigned char)c<32) c=' '; r+=c; } return r; }
	void finish() {
		fprintf(out,"@R %d %d\n",rank,nviol);
		if(rank==0) {
			std::string s="{\"evaluations\":"+std::to_string(evals)+",\"sigs\":"+std::to_string(sigs.size())+",\"counts\":{";
			bool f=true; for(auto&k:cnt) { char b[64]; snprintf(b,64,"%.12g",k.second); s+=(f?"":",")+("\""+esc(k.first)+"\":")+b; f=false; }
			s+="},\"max\":{"; f=true; for(auto&k:mx) { char b[64]; snprintf(b,64,"%.4g",std::isfinite(k.second)?k.second:1e300); s+=(f?"":",")+("\""+esc(k.first)+"\":")+b; f=false; }
			s+="},\"samples\":["; f=true; for(auto&k:samples) { s+=(f?"\"":",\"")+esc(k)+"\""; f=false; } s+="]}";
			fprintf(out,"@E %s\n",s.c_str());
		}
		fflush(out);
	}
};
extern Rep rep;

inline std::string sf(const char*fmt,...) { char b[3000]; va_list a; va_start(a,fmt); vsnprintf(b,sizeof b,fmt,a); va_end(a); return b; }
inline long envl(const char*n,long d) { const char*v=getenv(n); return v?atol(v):d; }
inline std::string envs(const char*n,const char*d) { const char*v=getenv(n); return v?v:d; }
inline bool near(double a,double b,double tol,double scale) { return std::fabs(a-b)<=tol*scale; } // false for NaN

// ---------------------------------------------------------------- meshes
typedef std::array<double,2> P2;
struct GMesh {
	std::vector<P2> p; std::vector<std::vector<int>> el; struct BF{int a,b,tag;}; std::vector<BF> bf; std::vector<int> reg; std::string desc;
	int ntri=0,nquad=0;
};
struct MOpt {
	int nmin=1,nmax=7; double pTri=-1; // fraction of quads split; -1 random incl. 0 and 1
	bool annulus=true, holes=true, perturb=true, affine=true, renumber=true, scale=true; double stretch=1;
	std::vector<int> tags={2,4,7,11,5}; double pbig=0.004,pstrip=0.002; bool rectOnly=false; bool flipb=true; int kind=-1;
};
inline double tarea(const P2&a,const P2&b,const P2&c) { return 0.5*((b[0]-a[0])*(c[1]-a[1])-(b[1]-a[1])*(c[0]-a[0])); }

inline bool cellok(const GMesh& m,const std::vector<int>& e) {
	int n=e.size(); double amax=0,amin=1e300;
	for(int k=0;k<n;k++) { double A=tarea(m.p[e[k]],m.p[e[(k+1)%n]],m.p[e[(k+2)%n]]); amax=std::max(amax,A); amin=std::min(amin,A);
	}
	if(!(amin>0)) return false;
	double l2=0; for(int k=0;k<n;k++) for(int q=0;q<k;q++) l2=std::max(l2,(m.p[e[k]][0]-m.p[e[q]][0])*(m.p[e[k]][0]-m.p[e[q]][0])+(m.p[e[k]][1]-m.p[e[q]][1])*(m.p[e[k]][1]-m.p[e[q]][1]));
	if(amin<0.008*l2) return false;
	// keep corners reasonably open: smallest corner triangle not tiny against the largest
	return amin>0.12*amax;
}
// boundary edges of the cells, directed as in the owning cell
inline std::map<std::pair<int,int>,int> bedges(const std::vector<std::vector<int>>& el) {
	std::map<std::pair<int,int>,int> e;
	for(size_t c=0;c<el.size();c++) { int n=el[c].size(); for(int k=0;k<n;k++) { int a=el[c][k],b=el[c][(k+1)%n]; auto it=e.find({b,a}); if(it!=e.end()) e.erase(it); else e[{a,b}]=(int)c; } }
	return e;
}
inline GMesh genMesh(Rng& r,const MOpt& o0=MOpt()) {
	MOpt o=o0;
	// a few meshes far larger than the rest, and markers of any size
	static const char*const eb=getenv("VF_PBIG"); if(r.p(eb&&o.pbig>0?atof(eb):o.pbig)) { o.nmin=20; o.nmax=r.p(0.3)?70:40; }
	if(o.tags==MOpt().tags&&r.p(0.3)) { int mx=r.p(0.5)?300:r.p(0.5)?40000:2000000; std::set<int> s; while(s.size()<5) s.insert(r.i(1,mx)); o.tags.assign(s.begin(),s.end()); r.shuffle(o.tags); }
	GMesh m; int kind=o.kind; // 0 rectangle, 1 annulus, 2 rectangle with removed cells, 3 mapped channel
	if(kind<0) { double q=r.u(); kind= o.rectOnly?0: q<0.40?0 : q<0.62&&o.annulus?1 : q<0.82&&o.holes?2:3; }
	int nx=r.i(o.nmin,o.nmax), ny=r.i(o.nmin,o.nmax); if(kind==1) { nx=std::max(nx,4); }
	if(kind==2) { nx=std::max(nx,3); ny=std::max(ny,3); }
	bool strip=(kind==0||kind==3)&&o.pbig>0&&r.p(o.pstrip); if(strip) { nx=r.i(100,300); ny=r.i(1,3); if(r.p(0.3)) std::swap(nx,ny); }   // long rows of cells
	double fq=o.pTri; if(fq<0) { double q=r.u(); fq=q<0.2?0:q<0.4?1:r.u(); }
	std::vector<double> xs(nx+1),ys(ny+1); double gx=o.stretch*r.u(-0.25,0.25)*std::min(1.0,9.0/nx), gy=o.stretch*r.u(-0.25,0.25)*std::min(1.0,9.0/ny); // the same overall stretching on larger meshes
	double h=1; xs[0]=0; for(int k=1;k<=nx;k++) { xs[k]=xs[k-1]+h; h*=std::exp(gx); }
	h=1; ys[0]=0; for(int k=1;k<=ny;k++) { ys[k]=ys[k-1]+h; h*=std::exp(gy); }
	{ double tx=xs[nx],ty=ys[ny]; for(double&v:xs) v/=tx; for(double&v:ys) v/=ty; }
	double Lx=r.lu(0.5,4), Ly=r.lu(0.5,4); if(strip) { double a=r.lu(0.3,3); (nx>ny?Lx:Ly)=a*std::max(nx,ny)/std::min(nx,ny)*(nx>ny?Ly:Lx); }
	int mx= kind==1? nx : nx+1; auto id=[&](int i,int j) { return j*mx+(kind==1? i%nx : i); };
	std::vector<P2> logical; // position in [0,1]^2
	for(int j=0;j<=ny;j++) for(int i=0;i<mx;i++) { m.p.push_back({0,0}); logical.push_back({xs[i],ys[j]}); }
	double r0=r.u(0.3,1), r1=r0+r.u(0.5,4), bump=r.u(0,0.15), ph=r.u(0,6.28);
	if(kind==1) for(int i=0;i<=nx;i++) xs[i]=(double)i/nx; // uniform angles
	for(int j=0;j<=ny;j++) for(int i=0;i<mx;i++) {
		double a=xs[i],b=ys[j]; P2&q=m.p[id(i,j)];
		// clockwise in i so that (i,j) cells stay counter-clockwise
		if(kind==1) { double R=r0+(r1-r0)*b; q={R*std::cos(ph-2*M_PI*a),R*std::sin(ph-2*M_PI*a)}; }
		else if(kind==3) q={Lx*a,Ly*(b+bump*(1-b)*std::sin(M_PI*a))};
		else q={Lx*a,Ly*b};
	}
	std::vector<char> keep(nx*ny,1);
	if(kind==2) { // remove cells while the boundary stays a manifold and the domain connected
		int tries=r.i(1,nx*ny/2);
		for(int t=0;t<tries;t++) {
			int c=r.i(0,nx*ny-1); if(!keep[c]) continue; keep[c]=0;
			auto K=[&](int i,int j) { return i>=0&&j>=0&&i<nx&&j<ny&&keep[j*nx+i]; };
			bool ok=true; int left=0; for(char k:keep) left+=k; if(left<2) ok=false;
			for(int j=0;j<=ny&&ok;j++) for(int i=0;i<=nx&&ok;i++) { bool A=K(i-1,j-1),B=K(i,j-1),C=K(i-1,j),D=K(i,j); if((A&&D&&!B&&!C)||(B&&C&&!A&&!D)) ok=false; }
			if(ok) { std::vector<char> seen(nx*ny,0); std::vector<int> st; for(int k=0;k<nx*ny;k++) if(keep[k]) { st.push_back(k); seen[k]=1; break; }
				int n=0; while(!st.empty()) { int k=st.back(); st.pop_back(); n++; int i=k%nx,j=k/nx; const int d[4][2]={{1,0},{-1,0},{0,1},{0,-1}}; for(auto&e:d) if(K(i+e[0],j+e[1])) { int q=(j+e[1])*nx+i+e[0]; if(!seen[q]) { seen[q]=1; st.push_back(q); } } }
				if(n!=left) ok=false; }
			if(!ok) keep[c]=1;
		}
	}
	for(int j=0;j<ny;j++) for(int i=0;i<nx;i++) { if(!keep[j*nx+i]) continue;
		int a=id(i,j),b=id(i+1,j),c=id(i+1,j+1),d=id(i,j+1);
		if(r.u()<fq) { if(r.p(0.5)) { m.el.push_back({a,b,c}); m.el.push_back({a,c,d}); } else { m.el.push_back({a,b,d}); m.el.push_back({b,c,d}); } }
		else m.el.push_back({a,b,c,d});
	}
	// drop unused points
	{ std::vector<int> nid(m.p.size(),-1); std::vector<P2> np; std::vector<P2> nl; for(auto&e:m.el) for(int&v:e) { if(nid[v]<0) { nid[v]=np.size(); np.push_back(m.p[v]); nl.push_back(logical[v]); } v=nid[v]; } m.p=np; logical=nl; }
	// random edge flips among triangles
	if(r.p(0.4)) for(int t=0;t<(int)m.el.size();t++) {
		int c=r.i(0,m.el.size()-1); if(m.el[c].size()!=3) continue; int k=r.i(0,2); int a=m.el[c][k],b=m.el[c][(k+1)%3],q=m.el[c][(k+2)%3];
		for(size_t d=0;d<m.el.size();d++) if((int)d!=c&&m.el[d].size()==3) for(int l=0;l<3;l++) if(m.el[d][l]==b&&m.el[d][(l+1)%3]==a) { int s=m.el[d][(l+2)%3];
			std::vector<int> e1={q,a,s},e2={q,s,b}; if(cellok(m,e1)&&cellok(m,e2)) { m.el[c]=e1; m.el[d]=e2; l=3; d=m.el.size(); break; } }
	}
	auto be=bedges(m.el); std::vector<char> onb(m.p.size(),0); for(auto&e:be) onb[e.first.first]=onb[e.first.second]=1;
	// boundary markers by location
	for(auto&e:be) { P2 A=logical[e.first.first],B=logical[e.first.second]; int t=o.tags[4];
		if(kind==1) t= (A[1]<1e-12&&B[1]<1e-12)? o.tags[0]:o.tags[1];
		else if(A[1]<1e-12&&B[1]<1e-12) t=o.tags[0]; else if(A[0]>1-1e-12&&B[0]>1-1e-12) t=o.tags[1]; else if(A[1]>1-1e-12&&B[1]>1-1e-12) t=o.tags[2]; else if(A[0]<1e-12&&B[0]<1e-12) t=o.tags[3];
		m.bf.push_back({e.first.first,e.first.second,t}); }
	if(o.perturb&&r.p(0.75)) { double am=r.u(0.05,0.3); std::vector<std::vector<int>> ep(m.p.size()); for(size_t c=0;c<m.el.size();c++) for(int v:m.el[c]) ep[v].push_back(c);
		for(size_t v=0;v<m.p.size();v++) { if(onb[v]) continue; double hm=1e300; for(int c:ep[v]) for(int w:m.el[c]) if(w!=(int)v) hm=std::min(hm,std::hypot(m.p[w][0]-m.p[v][0],m.p[w][1]-m.p[v][1]));
			P2 old=m.p[v]; m.p[v][0]+=am*hm*r.u(-1,1); m.p[v][1]+=am*hm*r.u(-1,1); for(int c:ep[v]) if(!cellok(m,m.el[c])) { m.p[v]=old; break; } } }
	if(o.affine&&r.p(0.6)) { double th=r.u(0,6.283),sh=r.u(-0.3,0.3),sx=r.u(-3,3),sy=r.u(-3,3); for(auto&q:m.p) { double x=q[0]+sh*q[1],y=q[1]; q={std::cos(th)*x-std::sin(th)*y+sx,std::sin(th)*x+std::cos(th)*y+sy}; } }
	if(o.scale&&r.p(0.2)) { double sc=r.p(0.3)?r.lu(1e-4,1e4):r.lu(1e-2,1e2); for(auto&q:m.p) { q[0]*=sc; q[1]*=sc; } }
	if(o.renumber) {
		std::vector<int> pn(m.p.size()); for(size_t k=0;k<pn.size();k++) pn[k]=k; if(r.p(0.7)) r.shuffle(pn);
		std::vector<P2> np(m.p.size()); for(size_t k=0;k<pn.size();k++) np[pn[k]]=m.p[k]; m.p=np;
		for(auto&e:m.el) { for(int&v:e) v=pn[v]; std::rotate(e.begin(),e.begin()+r.i(0,(int)e.size()-1),e.end()); }
		if(r.p(0.7)) r.shuffle(m.el); if(r.p(0.7)) r.shuffle(m.bf);
		for(auto&b:m.bf) { b.a=pn[b.a]; b.b=pn[b.b]; if(o.flipb&&r.p(0.3)) std::swap(b.a,b.b); }
	}
	for(size_t c=0;c<m.el.size();c++) { m.reg.push_back(r.i(1,9)); if(m.el[c].size()==3) m.ntri++; else m.nquad++; }
	m.desc=sf("kind%d %dx%d tri%d quad%d pts%d bf%d",kind,nx,ny,m.ntri,m.nquad,(int)m.p.size(),(int)m.bf.size());
	return m;
}
inline void writeMsh(const GMesh& m,const std::string& f,int ntb=2,int nte=2) {
	FILE*o=fopen(f.c_str(),"w"); if(!o) { perror(f.c_str()); abort(); }
	fprintf(o,"$MeshFormat\n2.2 0 8\n$EndMeshFormat\n$Nodes\n%d\n",(int)m.p.size());
	for(size_t k=0;k<m.p.size();k++) fprintf(o,"%d %.17g %.17g 0\n",(int)k+1,m.p[k][0],m.p[k][1]);
	fprintf(o,"$EndNodes\n$Elements\n%d\n",(int)(m.el.size()+m.bf.size())); int n=1;
	for(auto&b:m.bf) { fprintf(o,"%d 1 %d",n++,ntb); for(int t=0;t<ntb;t++) fprintf(o," %d",b.tag+1000*t); fprintf(o," %d %d\n",b.a+1,b.b+1); }
	for(size_t c=0;c<m.el.size();c++) { fprintf(o,"%d %d %d",n++,m.el[c].size()==3?2:3,nte); for(int t=0;t<nte;t++) fprintf(o," %d",m.reg[c]+100*t); for(int v:m.el[c]) fprintf(o," %d",v+1); fprintf(o,"\n"); }
	fprintf(o,"$EndElements\n"); fclose(o);
}
inline void writeSu2(const GMesh& m,const std::string& f) {
	FILE*o=fopen(f.c_str(),"w"); fprintf(o,"NDIME= 2\nNELEM= %d\n",(int)m.el.size());
	for(size_t c=0;c<m.el.size();c++) { fprintf(o,"%d",m.el[c].size()==3?5:9); for(int v:m.el[c]) fprintf(o," %d",v); fprintf(o," %d\n",(int)c); }
	fprintf(o,"NPOIN= %d\n",(int)m.p.size()); for(size_t k=0;k<m.p.size();k++) fprintf(o,"%.17g %.17g %d\n",m.p[k][0],m.p[k][1],(int)k);
	std::vector<int> tg; for(auto&b:m.bf) if(std::find(tg.begin(),tg.end(),b.tag)==tg.end()) tg.push_back(b.tag);
	fprintf(o,"NMARK= %d\n",(int)tg.size()); for(int t:tg) { int n=0; for(auto&b:m.bf) n+=b.tag==t; fprintf(o,"MARKER_TAG= %d\nMARKER_ELEMS= %d\n",t,n); for(auto&b:m.bf) if(b.tag==t) fprintf(o,"3 %d %d\n",b.a,b.b); }
	fclose(o);
}
inline std::vector<int> meshTags(const GMesh& m) { std::vector<int> tg; for(auto&b:m.bf) if(std::find(tg.begin(),tg.end(),b.tag)==tg.end()) tg.push_back(b.tag); std::sort(tg.begin(),tg.end()); return tg; }
inline double polyArea(const GMesh& m,int c) { double a=0; int n=m.el[c].size(); for(int k=0;k<n;k++) { const P2&A=m.p[m.el[c][k]],&B=m.p[m.el[c][(k+1)%n]]; a+=A[0]*B[1]-A[1]*B[0]; } return a/2; }

// Independent geometry built from the generator's data alone.
struct Geo {
	struct F { int L,R; int a,b; double nx,ny,len; int tag; }; // R=-1-k for boundary face k; normal out of L
	std::vector<F> f; std::vector<double> area; std::vector<P2> cc; std::vector<std::vector<int>> cf;
	explicit Geo(const GMesh& m) {
		int ne=m.el.size(); area.resize(ne); cc.resize(ne); cf.resize(ne);
		std::map<std::pair<int,int>,int> tg; for(auto&b:m.bf) tg[{std::min(b.a,b.b),std::max(b.a,b.b)}]=b.tag;
		std::map<std::pair<int,int>,int> fi;
		for(int c=0;c<ne;c++) { area[c]=polyArea(m,c); P2 s={0,0}; int n=m.el[c].size(); for(int v:m.el[c]) { s[0]+=m.p[v][0]; s[1]+=m.p[v][1]; } cc[c]={s[0]/n,s[1]/n};
			for(int k=0;k<n;k++) { int a=m.el[c][k],b=m.el[c][(k+1)%n]; std::pair<int,int> key(std::min(a,b),std::max(a,b)); auto it=fi.find(key);
				if(it==fi.end()) { F F0; F0.L=c; F0.R=-1; F0.a=a; F0.b=b; double dx=m.p[b][0]-m.p[a][0],dy=m.p[b][1]-m.p[a][1]; F0.len=std::sqrt(dx*dx+dy*dy); F0.nx=dy/F0.len; F0.ny=-dx/F0.len; F0.tag=0; auto t=tg.find(key); if(t!=tg.end()) F0.tag=t->second; fi[key]=f.size(); cf[c].push_back(f.size()); f.push_back(F0); }
				else { f[it->second].R=c; cf[c].push_back(it->second); } } }
		int k=0; for(auto&F0:f) if(F0.R==-1) F0.R=-1-k++;
	}
};
inline std::string scratch() { static std::string s; if(s.empty()) { s=envs("VF_SCRATCH","/tmp/vf_scratch"); mkdir(s.c_str(),0777); } return s; }
} // namespace vf
#endif
