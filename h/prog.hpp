// Running the programs of the repository and reading what runs write.
#ifndef VF_PROG_H
#define VF_PROG_H
#include <sys/wait.h>
#include <signal.h>
#include "mio.hpp"
#include "surf.hpp"
// ---------------------------------------------------------------- running a program: its exit status (or 1000+signal, 2000 for a time-out)
static int runProg(const std::vector<std::string>&a,double tmo,std::string*out=nullptr) {
	std::string of=scratch()+"/prog.out"; fflush(nullptr); pid_t p=fork(); if(p==0) { int f=open(of.c_str(),O_CREAT|O_TRUNC|O_WRONLY,0600); dup2(f,1); dup2(f,2); std::vector<char*> v; for(auto&s:a) v.push_back((char*)s.c_str()); v.push_back(nullptr); for(char**e=environ;*e;e++) while(*e&&(!strncmp(*e,"PMIX",4)||!strncmp(*e,"OMPI_COMM",9)||!strncmp(*e,"OMPI_UNIVERSE",13)||!strncmp(*e,"OMPI_MCA_ess=",13)||!strncmp(*e,"OMPI_MCA_pmix=",14)||!strncmp(*e,"OMPI_MCA_orte_",14)||!strncmp(*e,"ORTE_",5)||!strncmp(*e,"OMPI_APP_",9)||!strncmp(*e,"OMPI_COMMAND",12))) { char**q=e; do q[0]=q[1]; while(*q++); } execv(v[0],v.data()); _exit(126); }
	int st=0; double t=0; while(waitpid(p,&st,WNOHANG)==0) { usleep(2000); t+=0.002; if(t>tmo) { kill(p,SIGKILL); waitpid(p,&st,0); return 2000; } }
	if(out) { std::ifstream i(of); std::stringstream s; s<<i.rdbuf(); *out=s.str(); } unlink(of.c_str()); return WIFEXITED(st)?WEXITSTATUS(st):1000+WTERMSIG(st); }
static std::string binDir() { return envs("VF_BINDIR",""); }

// ---------------------------------------------------------------- unstructured-grid (VTU) files
struct Vtu { bool ok=true; std::string why; long np=-1,nc=-1; std::map<std::string,std::vector<double>> pd,cd; std::map<std::string,int> comp; std::vector<double> pts,conn,offs,types; };
static Vtu parseVtu(const std::string&f) { Vtu v; std::ifstream i(f); std::stringstream ss; ss<<i.rdbuf(); std::string t=ss.str(); auto bad=[&](const std::string&w) { if(v.ok) { v.ok=false; v.why=w; } };
	if(!i) { bad("no file"); return v; } std::vector<std::string> st; size_t p=0; std::string cur,name,section; std::vector<std::pair<std::string,std::string>> at;
	while(true) { size_t q=t.find('<',p); std::string txt=t.substr(p,q==std::string::npos?std::string::npos:q-p); if(!cur.empty()) { std::istringstream d(txt); std::vector<double> x; std::string w; while(d>>w) { char*e; double y=strtod(w.c_str(),&e); if(*e) { bad("not a number: "+w); return v; } x.push_back(y); } (cur=="pts"?v.pts:cur=="conn"?v.conn:cur=="offs"?v.offs:cur=="types"?v.types: section=="PointData"?v.pd[name]:v.cd[name])=x; cur.clear(); } else for(char ch:txt) if(!isspace((unsigned char)ch)) { bad("text outside an array"); return v; }
		if(q==std::string::npos) break; size_t e=t.find('>',q); if(e==std::string::npos) { bad("unfinished tag"); return v; } std::string tag=t.substr(q+1,e-q-1); p=e+1; if(tag[0]=='?'||tag[0]=='!') continue;
		if(tag[0]=='/') { std::string n=tag.substr(1); if(st.empty()||st.back()!=n) { bad("closing tag "+n+" does not match"); return v; } st.pop_back(); continue; }
		bool self=tag.back()=='/'; if(self) tag.pop_back(); std::istringstream ts(tag); std::string n; ts>>n; std::map<std::string,std::string> A; size_t k=n.size(); while(k<tag.size()) { while(k<tag.size()&&isspace((unsigned char)tag[k])) k++; if(k>=tag.size()) break; size_t eq=tag.find("=\"",k); if(eq==std::string::npos) { bad("bad attribute in "+n); return v; } size_t qe=tag.find('"',eq+2); if(qe==std::string::npos) { bad("bad attribute in "+n); return v; } A[tag.substr(k,eq-k)]=tag.substr(eq+2,qe-eq-2); k=qe+1; }
		std::string par=st.empty()?"":st.back(); static const std::map<std::string,std::string> want={{"VTKFile",""},{"UnstructuredGrid","VTKFile"},{"Piece","UnstructuredGrid"},{"Points","Piece"},{"Cells","Piece"},{"PointData","Piece"},{"CellData","Piece"}}; auto w=want.find(n); if(w!=want.end()&&w->second!=par) { bad(n+" inside "+par); return v; }
		if(n=="VTKFile"&&A["type"]!="UnstructuredGrid") bad("file type"); if(n=="Piece") { v.np=atol(A["NumberOfPoints"].c_str()); v.nc=atol(A["NumberOfCells"].c_str()); } if(n=="Points"||n=="Cells"||n=="PointData"||n=="CellData") section=n;
		if(n=="DataArray") { name=A["Name"]; int nc=A.count("NumberOfComponents")?atoi(A["NumberOfComponents"].c_str()):1; if(par=="Points") { cur="pts"; if(nc!=3) bad("points need 3 components"); } else if(par=="Cells") { cur=name=="connectivity"?"conn":name=="offsets"?"offs":name=="types"?"types":""; if(cur.empty()) { bad("cell array "+name); return v; } } else if(par=="PointData"||par=="CellData") { cur="d"; v.comp[name]=nc; } else { bad("DataArray inside "+par); return v; } }
		if(!self) st.push_back(n); }
	if(!st.empty()) bad("tag "+st.back()+" not closed"); return v; }
static void checkVtuMesh(const char*K,const Vtu&v,const Mesh&m) { std::string k(K); if(!v.ok) { rep.viol(k+":vtu-form","%s",v.why.c_str()); return; }
	if(v.np!=m.gnpoin()||v.nc!=m.gnelem()||(long)v.pts.size()!=3*v.np) { rep.viol(k+":vtu-counts","%ld points, %ld cells, %zu coordinates for %d points, %d cells",v.np,v.nc,v.pts.size(),(int)m.gnpoin(),(int)m.gnelem()); return; }
	double mx=0; for(int i=0;i<m.gnpoin();i++) for(int d=0;d<2;d++) mx=std::max(mx,std::fabs(m.gcoords(i,d))); for(int i=0;i<m.gnpoin();i++) for(int d=0;d<3;d++) { double x=d<2?m.gcoords(i,d):0; if(!(std::fabs(v.pts[3*i+d]-x)<=1e-9*std::fabs(x))) { rep.viol(k+":vtu-points","point %d coordinate %d: %.12g for %.12g",i,d,v.pts[3*i+d],x); return; } }
	if((int)v.offs.size()!=m.gnelem()||(int)v.types.size()!=m.gnelem()) { rep.viol(k+":vtu-cells","%zu offsets %zu types",v.offs.size(),v.types.size()); return; }
	long at=0; for(int e=0;e<m.gnelem();e++) { long o=v.offs[e]; if(o!=at+m.gnnode(e)) { rep.viol(k+":vtu-offsets","cell %d of %d nodes: offset %ld after %ld",e,m.gnnode(e),o,at); return; } if((int)v.types[e]!=(m.gnnode(e)==3?5:9)) { rep.viol(k+":vtu-types","cell %d of %d nodes has type %g",e,m.gnnode(e),v.types[e]); return; } for(int j=0;j<m.gnnode(e);j++) if(at+j>=(long)v.conn.size()||v.conn[at+j]!=m.ginpoel(e,j)) { rep.viol(k+":vtu-connectivity","cell %d node %d",e,j); return; } at=o; }
	if(at!=(long)v.conn.size()) rep.viol(k+":vtu-connectivity","%zu indices, %ld needed",v.conn.size(),at); rep.count("grid files compared"); }
static std::vector<std::vector<double>> table(const std::string&f,std::vector<std::string>*cm=nullptr,bool*bad=nullptr) { std::vector<std::vector<double>> t; std::ifstream i(f); std::string l; if(!i&&bad) *bad=true; while(std::getline(i,l)) { size_t k=l.find_first_not_of(" \t"); if(k==std::string::npos) continue; if(l[k]=='#') { if(cm) cm->push_back(l); continue; } std::istringstream s(l); std::vector<double> v; std::string w; while(s>>w) { char*e; v.push_back(strtod(w.c_str(),&e)); if(*e&&bad) *bad=true; } t.push_back(v); } return t; }
static double outTol=0;   // extra tolerance where the state itself is known only approximately
static bool six(double a,double b,double sc=0) { return std::fabs(a-b)<=(1e-5+outTol)*std::fabs(b)+(1e-11+outTol)*sc; }   // six printed digits
static void checkVolume(const std::string&f,const Case&c,const LMesh&lm) { int n=lm.cell.size(); bool bad=false; auto t=table(f,nullptr,&bad); if(bad||(int)t.size()!=n) rep.viol("output:volume-rows","%zu rows for %d cells",t.size(),n); else for(int e=0;e<n;e++) { const double*q=c.u[lm.cell[e]].data(); double vm=std::hypot(q[1],q[2])/q[0],p=rP(c.G,q),cs=std::sqrt(c.G.g*p/q[0]); const P2&x=c.geo->cc[lm.cell[e]]; double ex[8]={x[0],x[1],q[0],q[1]/q[0],q[2]/q[0],p,p/q[0]*c.G.g*c.G.M*c.G.M,vm/cs},ss[8]={1,1,1,vm,vm,q[3],ex[6]*q[3]/p,ex[7]*q[3]/p}; double xs=0; for(auto&z:c.gm.p) xs=std::max({xs,std::fabs(z[0]),std::fabs(z[1])}); ss[0]=ss[1]=xs; bool g=t[e].size()==8; for(int i=0;i<8&&g;i++) g=six(t[e][i],ex[i],ss[i]); if(!g) { rep.viol("output:volume-row","row %d: %zu entries, x=%g rho=%g p=%g; should be x=%g rho=%g p=%g",e,t[e].size(),t[e].size()?t[e][0]:0,t[e].size()>2?t[e][2]:0,t[e].size()>5?t[e][5]:0,ex[0],ex[2],ex[5]); break; } }  unlink(f.c_str()); rep.count("volume tables"); }
static void checkWall(const std::string&f,const Case&c,const U4&gx,const U4&gy,int tag) { SurfRef R=surfRef(c,gx,gy,tag); double cfm=0; for(auto&q:R.row) cfm=std::max(cfm,std::fabs(q.second[3])); bool bad=false; std::vector<std::string> cm; auto t=table(f,&cm,&bad); unlink(f.c_str()); if(bad||t.size()!=R.row.size()) { rep.viol("output:wall-rows","marker %d: %zu rows for %zu faces",tag,t.size(),R.row.size()); return; } std::vector<char> used(t.size(),0); bool g=true; double xs=0; for(auto&z:c.gm.p) xs=std::max({xs,std::fabs(z[0]),std::fabs(z[1])}); for(auto&q:R.row) { int hit=-1; for(size_t k=0;k<t.size();k++) if(!used[k]&&t[k].size()==4&&six(t[k][0],q.second[0],xs)&&six(t[k][1],q.second[1],xs)&&six(t[k][2],q.second[2],R.pscale)&&std::fabs(t[k][3]-q.second[3])<=1e-5*std::fabs(q.second[3])+1e-11*R.fmax+outTol*cfm) { hit=k; break; } if(hit<0) { rep.viol("output:wall-row","marker %d: no row x=%g y=%g Cp=%g Cf=%g",tag,q.second[0],q.second[1],q.second[2],q.second[3]); g=false; break; } used[hit]=1; }
	if(!g) return; double v[3]; bool found=false; for(auto&l:cm) { double x[3]; char e; if(sscanf(l.c_str()," # %lf %lf %lf %c",&x[0],&x[1],&x[2],&e)==3) { memcpy(v,x,sizeof v); found=true; } } if(!found) rep.viol("output:wall-coefficients","marker %d: no line with the three coefficients",tag); else if(!six(v[0],R.CL,R.scale)||!six(v[1],R.CDp,R.scale)||!(std::fabs(v[2]-R.CDf)<=1e-5*std::fabs(R.CDf)+1e-11*R.fscale)) rep.viol("output:wall-coefficients","marker %d: CL CDp CDf = %g %g %g, should be %g %g %g",tag,v[0],v[1],v[2],R.CL,R.CDp,R.CDf); rep.count("wall tables"); rep.count("wall rows",t.size()); }
static void checkOther(const std::string&f,const Case&c,int tag) { bool bad=false; auto t=table(f,nullptr,&bad); unlink(f.c_str()); std::vector<std::array<double,4>> ex; for(auto&F:c.geo->f) if(F.R<0&&F.tag==tag) { const double*q=c.u[F.L].data(); ex.push_back({{0.5*(c.gm.p[F.a][0]+c.gm.p[F.b][0]),0.5*(c.gm.p[F.a][1]+c.gm.p[F.b][1]),q[1]/q[0],q[2]/q[0]}}); } if(bad||t.size()!=ex.size()) { rep.viol("output:other-rows","marker %d: %zu rows for %zu faces",tag,t.size(),ex.size()); return; } double xs=0; for(auto&z:c.gm.p) xs=std::max({xs,std::fabs(z[0]),std::fabs(z[1])}); std::vector<char> used(t.size(),0); for(auto&q:ex) { int hit=-1; for(size_t k=0;k<t.size();k++) if(!used[k]&&t[k].size()==4&&six(t[k][0],q[0],xs)&&six(t[k][1],q[1],xs)&&six(t[k][2],q[2],1)&&six(t[k][3],q[3],1)) { hit=k; break; } if(hit<0) { rep.viol("output:other-row","marker %d: no row x=%g y=%g u=%g v=%g",tag,q[0],q[1],q[2],q[3]); break; } used[hit]=1; } rep.count("other-boundary tables"); }
#endif
