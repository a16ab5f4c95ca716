// Malformed mesh and control files: every case is loaded in a child process of its own (address and undefined-behaviour sanitizers in the asan build).
#include <iostream>
#include <fstream>
#include <sstream>
#include <sys/wait.h>
#include <sys/resource.h>
#include <signal.h>
#include "prog.hpp"
#include "spatial/aoutput.hpp"
#define VF_NO_MODES
namespace vf { Rep rep; AsFound asFound; }
static MOpt mopt(Rng&r) { MOpt o; o.nmin=1; o.nmax=r.p(0.3)?6:3; return o; }
#include "ctrl.hpp"
static std::string slurp(const std::string&f) { std::ifstream i(f,std::ios::binary); std::stringstream s; s<<i.rdbuf(); return s.str(); }
static void spit(const std::string&f,const std::string&s) { std::ofstream o(f,std::ios::binary); o<<s; }
// ---- mutations of texts
static std::string junk(Rng&r,bool numeric) { static const std::vector<std::string> n={"0","-1","1","2","3","4","5","7","8","9","10","15","16","26","100","-2147483648","2147483647","2147483648","99999999999999999999","1e9","1.5","nan","inf","-0","0x10","1e400","+3",""},t={"abc","$Nodes","$EndNodes","$Elements","=","MARKER_TAG=","{","}","\"",";","#","\\","\n","\x01\xff","%"}; return numeric||r.p(0.6)?r.pick(n):r.pick(t); }
struct Tok { size_t b,e; };
static std::vector<Tok> toks(const std::string&s) { std::vector<Tok> v; size_t k=0; while(k<s.size()) { while(k<s.size()&&isspace((unsigned char)s[k])) k++; size_t b=k; while(k<s.size()&&!isspace((unsigned char)s[k])) k++; if(k>b) v.push_back({b,k}); } return v; }
static std::vector<std::string> lines(const std::string&s) { std::vector<std::string> v; std::string c; for(char ch:s) { c+=ch; if(ch=='\n') { v.push_back(c); c.clear(); } } if(!c.empty()) v.push_back(c); return v; }
static std::string join(const std::vector<std::string>&v) { std::string s; for(auto&x:v) s+=x; return s; }
static std::string mutate(Rng&r,std::string s,std::string&what) { if(s.empty()) return s; int k=r.i(0,15); auto add=[&](const std::string&w) { what+=(what.empty()?"":", ")+w; };
	if(k<=2) { size_t n=r.i(0,(int)s.size()-1); add(sf("cut after byte %zu of %zu",n,s.size())); return s.substr(0,n); }
	if(k<=7) { auto t=toks(s); if(t.empty()) return s; const Tok&q=t[r.p(0.3)?r.i(0,std::min<int>(20,t.size()-1)):r.i(0,(int)t.size()-1)]; std::string old=s.substr(q.b,q.e-q.b); std::string nw; bool nm=isdigit((unsigned char)old[0])||old[0]=='-'; if(nm&&r.p(0.35)) nw=sf("%ld",atol(old.c_str())+(r.p(0.5)?1:-1)*r.i(1,r.p(0.5)?1:20)); else if(r.p(0.25)) { const Tok&o=r.pick(t); nw=s.substr(o.b,o.e-o.b); } else nw=junk(r,nm&&r.p(0.8)); add(sf("token at byte %zu: '%s' becomes '%s'",q.b,old.c_str(),nw.c_str())); return s.substr(0,q.b)+nw+s.substr(q.e); }
	if(k==8) { auto t=toks(s); if(t.empty()) return s; const Tok&q=r.pick(t); std::string nw=r.p(0.7)?sf("%d",r.i(-3,30)):junk(r,false); add(sf("'%s' inserted at byte %zu",nw.c_str(),q.b)); return s.substr(0,q.b)+nw+" "+s.substr(q.b); }
	auto L=lines(s); size_t a=r.i(0,(int)L.size()-1),b=r.i(0,(int)L.size()-1);
	if(k==9) { add(sf("line %zu removed",a)); L.erase(L.begin()+a); } else if(k==10) { add(sf("line %zu repeated after line %zu",a,b)); std::string c=L[a]; L.insert(L.begin()+b,c); } else if(k==11) { add(sf("lines %zu and %zu exchanged",a,b)); std::swap(L[a],L[b]); } else if(k==12) { if(a>b) std::swap(a,b); add(sf("lines %zu to %zu removed",a,b)); L.erase(L.begin()+a,L.begin()+b+1); } else if(k==13) { add("lines shuffled from line "+std::to_string(a)); std::vector<std::string> t(L.begin()+a,L.end()); r.shuffle(t); std::copy(t.begin(),t.end(),L.begin()+a); } else if(k==14) { add(sf("cut after line %zu",a)); L.resize(a); }
	else { std::string o=join(L); for(int n=r.i(1,8);n>0&&!o.empty();n--) { size_t p=r.i(0,(int)o.size()-1); o[p]=(char)r.i(0,255); } add("random bytes"); return o; }
	return join(L); }
// ---- inconsistent meshes
static GMesh breakMesh(Rng&r,GMesh g,std::string&what) { if(g.el.empty()) return g; int k=r.i(0,13); auto add=[&](const std::string&w) { what+=(what.empty()?"":", ")+w; };
	auto e=[&] { return r.i(0,(int)g.el.size()-1); };
	switch(k) { case 0: if(g.bf.size()) { int n=r.i(0,(int)g.bf.size()-1); add(sf("boundary face %d missing",n)); g.bf.erase(g.bf.begin()+n); } break;
		case 1: if(g.bf.size()) { auto b=r.pick(g.bf); if(r.p(0.5)) b.tag=99; if(r.p(0.5)) std::swap(b.a,b.b); add("boundary face repeated"); g.bf.insert(g.bf.begin()+r.i(0,(int)g.bf.size()),b); } break;
		case 2: { int c=e(); int j=r.i(0,(int)g.el[c].size()-1); GMesh::BF b{g.el[c][j],g.el[c][(j+1)%g.el[c].size()],3}; if(r.p(0.3)) b.b=g.el[c][(j+2)%g.el[c].size()]; add("another edge listed as boundary face"); g.bf.push_back(b); break; }
		case 3: { GMesh::BF b{r.i(0,(int)g.p.size()-1),r.i(0,(int)g.p.size()-1),3}; add("arbitrary boundary face"); g.bf.push_back(b); break; }
		case 4: { int c=e(); int i=r.i(0,(int)g.el[c].size()-1),j=r.i(0,(int)g.el[c].size()-1); g.el[c][i]=g.el[c][j]; add(sf("cell %d with a node twice",c)); break; }
		case 5: { int c=e(); std::reverse(g.el[c].begin(),g.el[c].end()); add(sf("cell %d clockwise",c)); break; }
		case 6: { int c=e(); auto x=g.el[c]; g.el.insert(g.el.begin()+r.i(0,(int)g.el.size()),x); g.reg.push_back(1); add("cell repeated"); break; }
		case 7: { int c=e(); int j=r.i(0,(int)g.el[c].size()-1); g.p.push_back({r.u(-2,2),r.u(-2,2)}); g.el.push_back({g.el[c][j],g.el[c][(j+1)%g.el[c].size()],(int)g.p.size()-1}); g.reg.push_back(1); add("a third cell at an edge"); break; }
		case 8: { g.p.push_back(P2{{r.u(-2,2),r.u(-2,2)}}); add("a point without cells"); break; }
		case 9: { int c=e(); g.el.erase(g.el.begin()+c); g.reg.erase(g.reg.begin()+c); add("a cell missing"); break; }
		case 10: { g.el.clear(); g.reg.clear(); add("no cells"); break; }
		case 11: { g.bf.clear(); add("no boundary faces"); break; }
		case 12: { int c=e(); g.el[c][r.i(0,(int)g.el[c].size()-1)]=r.p(0.5)?r.i(0,(int)g.p.size()-1):(int)g.p.size()+r.i(0,5); add("cell with another node"); break; }
		default: { int a=r.i(0,(int)g.p.size()-1); P2 q=r.pick(g.p); g.p[a]=r.p(0.3)?P2{{0,0}}:q; add("coinciding points"); } }
	return g; }
// ---- a case in a child process
static double limitSec() { return envl("VF_CASE_LIMIT",20); }
template<class F> static int isolated(F fn,std::string*err) { if(getenv("VF_NOFORK")) { try { fn(); } catch(const std::exception&e) { fprintf(stderr,"exception: %s\n",e.what()); return 10; } return 0; } std::string ef=scratch()+"/child.err"; fflush(nullptr); pid_t p=fork(); if(p==0) { int f=open(ef.c_str(),O_CREAT|O_TRUNC|O_WRONLY,0600); dup2(f,2); int nl=open("/dev/null",O_WRONLY); dup2(nl,1); struct rlimit rl={0,0}; setrlimit(RLIMIT_CORE,&rl); for(int sg:{SIGSEGV,SIGABRT,SIGFPE,SIGBUS,SIGILL}) if(sg!=SIGSEGV||!envl("VF_ASAN",0)) signal(sg,SIG_DFL); int rc=0; try { fn(); } catch(const std::exception&e) { rc=10; } catch(...) { rc=11; } _exit(rc); }
	int st=0; double t=0; while(waitpid(p,&st,WNOHANG)==0) { usleep(t<0.05?500:3000); t+=t<0.05?0.0005:0.003; if(t>limitSec()) { kill(p,SIGKILL); waitpid(p,&st,0); return 2000; } } *err=slurp(ef); unlink(ef.c_str()); return WIFEXITED(st)?WEXITSTATUS(st):1000+WTERMSIG(st); }
static std::string errKey(const std::string&e) { size_t p; auto id=[](std::string s) { std::string o; for(char c:s) if(isalnum((unsigned char)c)||c==':'||c=='_'||c=='-'||c=='~') o+=c; else if(c=='<'||c=='(') break; return o.substr(0,60); };
	if((p=e.find("SUMMARY: "))!=std::string::npos) { std::istringstream s(e.substr(p+9,400)); std::string a,b,c,d,f; s>>a>>b; std::string rest; std::getline(s,rest); size_t q=rest.find(" in "); return "memory:"+id(b)+":"+(q==std::string::npos?"":id(rest.substr(q+4))); }
	if((p=e.find("runtime error: "))!=std::string::npos) { std::string s=e.substr(p+15,60),o; for(char c:s) { if(c=='\n') break; o+=isdigit((unsigned char)c)?'N':c==' '?'-':c; } return "undefined:"+o; }
	if(e.find("Assertion `")!=std::string::npos) return "assertion"; if(e.find("terminate called")!=std::string::npos) return "terminate"; return ""; }
static void verdict(const char*kind,int st,const std::string&err,const std::string&what) { std::string K=std::string("malformed:")+kind; std::string ek=errKey(err); rep.count(std::string(kind)+(st==0?" files accepted":st==10?" files refused":st==11?" files refused (other exception)":" files with another outcome"));
	std::string tail=err.size()>900?err.substr(0,900):err; for(char&c:tail) if(c=='\n') c='/';
	if(st==0||st==10||st==11) { return; } if(st==2000) { rep.viol(K+":hang","%s: no end after %g s",what.c_str(),limitSec()); return; }
	if(!ek.empty()) { rep.viol(K+":"+ek,"%s: status %d; %s",what.c_str(),st,tail.c_str()); return; }
	if(st>=1000) rep.viol(K+":signal"+std::to_string(st-1000),"%s; %s",what.c_str(),tail.c_str()); else rep.viol(K+":exit"+std::to_string(st),"%s: the process ended with status %d instead of raising an error; %s",what.c_str(),st,tail.c_str()); }
static void mMesh(Rng&r) { GMesh g=genMesh(r,mopt(r)); std::string what; bool su2=r.p(0.4); int mode=r.i(0,9); if(mode<=3) { g=breakMesh(r,g,what); if(r.p(0.15)) g=breakMesh(r,g,what); } while(g.reg.size()<g.el.size()) g.reg.push_back(1);
	std::string f=scratch()+(su2?"/f.su2":"/f.msh"); if(su2) writeSu2(g,f); else writeMsh(g,f,r.i(1,3),r.i(1,3)); std::string s=slurp(f); if(mode>=3) { s=mutate(r,s,what); while(r.p(0.25)) s=mutate(r,s,what); } spit(f,s); if(r.p(0.02)) { unlink(f.c_str()); what+=" no file"; } if(r.p(0.01)) { std::string n=scratch()+"/f.xyz"; rename(f.c_str(),n.c_str()); f=n; what+=" unknown suffix"; }
	rep.at(rep.cur+" "+(su2?"SU2 ":"Gmsh ")+g.desc+": "+what); std::string err; bool part=r.p(0.7);
	int st=isolated([&] { if(part) { UMesh<freal,NDIM> m=constructMesh(f); volatile double a=0; for(int e=0;e<m.gnelem();e++) a=a+m.garea(e); for(int k=0;k<m.gnaface();k++) a=a+m.gfacemetric(k,2); } else { MeshData d=readMesh(f); UMesh<freal,NDIM> m(d); m.correctBoundaryFaceOrientation(); m.compute_topological(); } },&err); verdict(su2?"su2":"gmsh",st,err,what); unlink(f.c_str()); rep.eval(mix(hashs(s),su2)); if(st==10) rep.sample(what.substr(0,150)); }
static void mCtl(Rng&r) { std::string f=scratch()+"/f.ctrl",mf,what; bool mesh=r.p(0.4); Case c; if(mesh) { c.gm=genMesh(r,mopt(r)); c.setGeo(); static const std::vector<int> all={B_SLIP,B_FAR,B_INOUT,B_EXTRAP,B_ADIA,B_ISO,B_SUBIN}; rndConf(r,c,all,60,0.5); c.conf(); mf=meshFile(c.gm); } Ctl t=mesh?rndCtl(r,&c,mf):rndCtl(r);
	bool loose=mesh&&r.p(0.5); if(loose) { CN*b=t.root.get("bc"); if(r.p(0.5)&&b->get("bc0")) { CN*x=b->get("bc"+std::to_string(r.i(0,(int)c.bc.size()-1))); if(x&&x->get("marker")) { x->get("marker")->v=std::to_string(r.pick(std::vector<int>{0,-1,77,1000000000})); what="a marker of the mesh has no boundary condition"; } } else { for(size_t k=0;k<b->c.size();k++) if(b->c[k].k.compare(0,2,"bc")==0&&b->c[k].k!="bc0") { b->c.erase(b->c.begin()+k); what="a boundary condition is missing"; break; } } if(what.empty()) loose=false; }
	if(loose) { auto L=t.root.get("spatial_discretization"); (void)L; } writeCN(r,t.root,f,true); std::string s=slurp(f); if(!loose) { s=mutate(r,s,what); while(r.p(0.25)) s=mutate(r,s,what); } spit(f,s); if(r.p(0.02)) { unlink(f.c_str()); what+=" no file"; }
	rep.at(rep.cur+" control file: "+what); std::string err; std::vector<std::string> a={"fvens",f}; if(r.p(0.02)) a={"fvens"};
	int st=isolated([&] { POpt p; p.parse(a,0xAA); if(mesh) { if(p.o->meshfile!=mf) return; UMesh<freal,NDIM> m=constructMeshFlow(*p.o,""); std::unique_ptr<const FlowFV_base<freal>> d(create_const_flowSpatialDiscretization<freal>(&m,extract_spatial_physics_config(*p.o),extract_spatial_numerics_config(*p.o))); Vec u,rr; initializeSystemVector(*p.o,m,&u); VecDuplicate(u,&rr); VecSet(rr,0); d->compute_residual(u,rr,false,NULL); if(p.o->pseudotimetype=="IMPLICIT") std::unique_ptr<const NonlinearUpdate<4>>(create_const_nonlinearUpdateScheme<4>(*p.o)); } },&err); verdict(mesh?"control+mesh":"control",st,err,what);
	if(loose&&st==0) rep.viol("malformed:marker-without-condition","%s and the discretisation computes a residual",what.c_str());
	unlink(f.c_str()); if(mesh) unlink(mf.c_str()); rep.eval(mix(hashs(s),3)); if(st==10) rep.sample(what.substr(0,150)); }
// ---- the programs of the repository on malformed input: what the library refuses ends their run with an error status, never with a signal
static std::string strangeCtl(Rng&r,Case&c,const std::string&mf,CN*root=nullptr) { c.setGeo(); static const std::vector<int> all={B_SLIP,B_FAR,B_INOUT,B_EXTRAP,B_ADIA,B_ISO,B_SUBIN}; rndConf(r,c,all,60,0.5); c.conf(); Ctl t=rndCtl(r,&c,mf); std::string f=scratch()+"/p.ctrl"; writeCN(r,t.root,f,true); if(root) *root=t.root; return f; }
static void progVerdict(const char*prog,int lib,int st,const std::string&what,const std::string&log) { std::string K=std::string("malformed:")+prog,l=log.size()>400?log.substr(log.size()-400):log; for(char&c:l) if(c=='\n') c='/'; rep.count(std::string(prog)+(st==0?" runs accepted":" runs refused"));
	if(st==2000) rep.viol(K+":hang","%s; %s",what.c_str(),l.c_str()); else if(st>=1000) rep.viol(K+":signal"+std::to_string(st-1000),"%s (library: %d); %s",what.c_str(),lib,l.c_str()); else if(lib>=10&&st==0) rep.viol(K+":success","the library refuses the input, the program ends with status 0: %s; %s",what.c_str(),l.c_str()); else if(lib==0&&st!=0&&std::string(prog)=="convertformat") rep.viol(K+":refused","the library accepts the input, the program ends with status %d: %s; %s",st,what.c_str(),l.c_str()); }
static void mProg(Rng&r) { std::string what,err,log; Case c; c.gm=genMesh(r,mopt(r)); bool su2=r.p(0.4); std::string f=scratch()+(su2?"/f.su2":"/f.msh"); bool steady=r.p(0.5);
	auto badMesh=[&] { GMesh g=c.gm; int mode=r.i(0,9); if(mode<=3) g=breakMesh(r,g,what); while(g.reg.size()<g.el.size()) g.reg.push_back(1); if(su2) writeSu2(g,f); else writeMsh(g,f,r.i(1,3),r.i(1,3)); std::string s=slurp(f); if(mode>=3) { s=mutate(r,s,what); while(r.p(0.25)) s=mutate(r,s,what); } spit(f,s); if(r.p(0.04)) { unlink(f.c_str()); what+=" no file"; } return hashs(s); };
	if(!steady) { uint64_t h=badMesh(); bool vtu=r.p(0.5); std::string o=scratch()+(vtu?"/o.vtu":"/o.msh"); rep.at(rep.cur+" convertformat "+f+": "+what); int lib=isolated([&] { MeshData d=readMesh(f); UMesh<freal,NDIM> m(d); },&err); if(lib!=0&&lib!=10&&lib!=11) { verdict(su2?"su2":"gmsh",lib,err,what); unlink(f.c_str()); return; } int st=runProg({binDir()+"/convertformat",f,o,vtu?"vtu":"msh"},limitSec(),&log); progVerdict("convertformat",lib,st,what,log); unlink(f.c_str()); unlink(o.c_str()); rep.eval(mix(h,5)); return; }
	bool badCtl=r.p(0.5); std::string cf; uint64_t h; if(!badCtl) { cf=strangeCtl(r,c,f); h=badMesh(); } else { if(su2) writeSu2(c.gm,f); else writeMsh(c.gm,f,1,1); cf=strangeCtl(r,c,f); std::string s=slurp(cf); if(!r.p(0.08)) { s=mutate(r,s,what); while(r.p(0.3)) s=mutate(r,s,what); } else what="intact"; spit(cf,s); h=hashs(s); if(r.p(0.05)) { unlink(cf.c_str()); what+=" no control file"; } }
	std::vector<std::string> a={"fvens",cf}; if(r.p(0.03)) { a.pop_back(); what+=" no arguments"; } rep.at(rep.cur+" fvens_steady: "+(badCtl?"control file: ":"mesh: ")+what);
	int lib=isolated([&] { POpt p; p.parse(a,0xAA); UMesh<freal,NDIM> m=constructMeshFlow(*p.o,""); std::unique_ptr<const FlowFV_base<freal>> d(create_const_flowSpatialDiscretization<freal>(&m,extract_spatial_physics_config(*p.o),extract_spatial_numerics_config(*p.o))); Vec u; initializeSystemVector(*p.o,m,&u); },&err);
	if(lib!=0&&lib!=10&&lib!=11) verdict("control+mesh",lib,err,what); else if(lib==0) rep.count(what=="intact"?"fvens_steady intact inputs accepted by the library (not run)":"fvens_steady inputs accepted by the library (not run)");
	else { std::vector<std::string> v=a; v[0]=binDir()+"/fvens_steady"; if(r.p(0.12)) { v.insert(v.begin(),{"/usr/bin/mpirun","-n",r.p(0.5)?"2":"3"}); rep.count("fvens_steady runs on 2 or 3 processes"); } v.push_back("-options_left"); v.push_back("no"); int st=runProg(v,limitSec(),&log); progVerdict("fvens_steady",lib,st,what,log); rep.eval(mix(h,6)); }
	unlink(f.c_str()); unlink(cf.c_str()); }
int main(int argc,char**argv) { std::string m=argv[1]; Petsc P(argc,argv); mkdir(scratch().c_str(),0777); runCases([&](Rng&r,long k) { if(m=="mesh") mMesh(r); else if(m=="prog") mProg(r); else mCtl(r); }); }
