// Control files and selection of schemes by name.
#ifndef VF_CTRL_H
#define VF_CTRL_H
#include <typeinfo>
#include <memory>
#include "utilities/controlparser.hpp"
#include "utilities/aoptionparser.hpp"
#include "utilities/casesolvers.hpp"
#include "utilities/afactory.hpp"
#include "spatial/abctypemap.hpp"
#include "ode/nonlinearrelaxation.hpp"
namespace vf {
// a node of the control file; leaf values are written as they are
struct CN { std::string k,v; std::vector<CN> c; CN(const std::string&k_="",const std::string&v_=""):k(k_),v(v_) {} CN&add(const std::string&a,const std::string&b="") { c.push_back(CN(a,b)); return c.back(); } CN*get(const std::string&a) { for(auto&x:c) if(x.k==a) return &x; return nullptr; } };
inline std::string rcase(Rng&r,std::string s) { int m=r.i(0,3); for(auto&ch:s) { if(m==1) ch=toupper(ch); else if(m==2) ch=tolower(ch); else if(m==3) ch=r.p(0.5)?toupper(ch):tolower(ch); } return s; }
inline std::string q(Rng&r,const std::string&s,bool must=false) { return must||r.p(0.4)?"\""+s+"\"":s; }
inline std::string num(Rng&r,double x) { std::string s=sf("%.17g",x); if(r.p(0.3)) s=sf("%.16e",x); if(strtod(s.c_str(),nullptr)!=x) s=sf("%.17g",x); if(s.find_first_of(".e")==std::string::npos&&r.p(0.3)) s+=".0"; return s; }
inline void emitCN(Rng&r,FILE*o,const std::vector<CN>&c,int d,bool plain) {
	auto ind=[&] { return plain?std::string(d,'\t'):std::string(r.i(0,4),r.p(0.5)?' ':'\t'); };
	for(auto&x:c) { if(!plain&&r.p(0.15)) fprintf(o,"%s;; comment with words { 1 2 } \"x\n",ind().c_str()); if(!plain&&r.p(0.1)) fprintf(o,"\n");
		if(x.c.empty()) { fprintf(o,"%s%s%s%s%s\n",ind().c_str(),x.k.c_str(),std::string(plain?4:r.i(1,9),' ').c_str(),x.v.c_str(),!plain&&r.p(0.15)?"   ; trailing words":""); }
		else { fprintf(o,"%s%s%s{\n",ind().c_str(),x.k.c_str(),plain||r.p(0.5)?" ":"\n"); emitCN(r,o,x.c,d+1,plain); fprintf(o,"%s}\n",ind().c_str()); } } }
inline void writeCN(Rng&r,const CN&root,const std::string&f,bool plain=false) { FILE*o=fopen(f.c_str(),"w"); emitCN(r,o,root.c,0,plain); fclose(o); }
struct Ctl { CN root; FlowParserOptions W=FlowParserOptions(); double lim=0; bool gaveLim=false,unsteady=false,implicit=false; std::vector<std::pair<std::vector<std::string>,std::string>> must; };
inline CN* at(CN&root,const std::vector<std::string>&p) { CN*x=&root; for(auto&k:p) { x=x->get(k); if(!x) return nullptr; } return x; }
inline void shuffleCN(Rng&r,CN&x) { r.shuffle(x.c); for(auto&y:x.c) shuffleCN(r,y); }
inline std::string rndName(Rng&r) { static const char*const w[]={"run","a b","case-1","out/put","x.y","grid_07","ünï","Grid-A","Dir/../Case"}; std::string s=w[r.i(0,8)]; if(r.p(0.08)) { int n=r.i(40,150); s+="/"; for(int k=0;k<n;k++) s+="abcdefghijklmnop_QRSTUV./-0123"[r.i(0,29)]; s+="z"; } return s; }
inline std::string rlist(Rng&r,const std::vector<std::string>&v) { std::string s; for(auto&x:v) s+=(s.empty()?"":r.p(0.2)?"  ":" ")+x; return r.p(0.5)?"\""+s+"\"":s; }
// a random complete control file and the settings it stands for
inline Ctl rndCtl(Rng&r,const Case*cs=nullptr,const std::string&mesh="") {
	Ctl t; auto&W=t.W; CN&R=t.root; auto M=[&](std::vector<std::string> p) { t.must.push_back({p,p.back()}); };
	W.meshfile=mesh.empty()?rndName(r)+".msh":mesh; W.vtu_output_file=rndName(r)+".vtu"; W.logfile=rndName(r); W.lognres=r.p(0.5);
	CN io("io"); io.add("mesh_file",q(r,W.meshfile,true)); io.add("solution_output_file",q(r,W.vtu_output_file,true)); io.add("log_file_prefix",q(r,W.logfile,true)); io.add("convergence_history_required",W.lognres?(r.p(0.7)?"true":"1"):(r.p(0.7)?"false":"0")); R.c.push_back(io); for(auto k:{"mesh_file","solution_output_file","log_file_prefix","convergence_history_required"}) M({"io",k});
	bool visc=cs?cs->visc:r.p(0.6); double deg=cs?cs->aoa*180/M_PI:r.p(0.2)?0:r.p(0.1)?r.u(-400,400):r.u(-180,180); W.viscsim=visc; W.flowtype=visc?"NAVIERSTOKES":"EULER"; W.gamma=cs?cs->G.g:r.p(0.1)?r.u(1.001,3):r.u(1.05,1.8); W.alpha=deg*M_PI/180; W.Minf=cs?cs->G.M:r.p(0.1)?r.lu(1e-5,60):r.lu(0.01,10); W.useconstvisc=visc?(cs?cs->cvisc:r.p(0.4)):false;
	CN fc("flow_conditions"); fc.add("flow_type",q(r,rcase(r,W.flowtype))); fc.add("adiabatic_index",num(r,W.gamma)); fc.add("angle_of_attack",num(r,deg)); fc.add("freestream_Mach_number",num(r,W.Minf)); for(auto k:{"flow_type","adiabatic_index","angle_of_attack","freestream_Mach_number"}) M({"flow_conditions",k});
	if(visc) { W.Tinf=cs?cs->G.Tinf:r.p(0.1)?r.lu(1,5000):r.u(50,900); W.Reinf=cs?cs->G.Re:r.lu(1e-2,1e10); W.Pr=cs?cs->G.Pr:r.u(0.3,2); fc.add("freestream_temperature",num(r,W.Tinf)); fc.add("freestream_Reynolds_number",num(r,W.Reinf)); fc.add("Prandtl_number",num(r,W.Pr)); for(auto k:{"freestream_temperature","freestream_Reynolds_number","Prandtl_number"}) M({"flow_conditions",k}); if(W.useconstvisc||r.p(0.5)) fc.add("use_constant_viscosity",W.useconstvisc?"true":r.p(0.5)?"false":"0"); }
	else { W.Tinf=298; W.Reinf=1/0.; W.Pr=0/0.; } R.c.push_back(fc);
	CN bc("bc"); static const std::map<BCType,std::string> nm={{SLIP_WALL_BC,"slipwall"},{FARFIELD_BC,"farfield"},{INFLOW_OUTFLOW_BC,"inflowoutflow"},{SUBSONIC_INFLOW_BC,"subsonic_inflow"},{EXTRAPOLATION_BC,"extrapolation"},{ADIABATIC_WALL_BC,"adiabaticwall"},{ISOTHERMAL_WALL_BC,"isothermalwall"},{PERIODIC_BC,"periodic"}};
	auto tag=[&]() { return r.p(0.15)?r.i(100,2000000):r.i(0,99); }; int nb=cs?cs->bc.size():r.p(0.06)?r.i(8,25):r.i(0,7); std::vector<int> tags; for(int k=0;k<nb;k++) tags.push_back(tag()); if(cs) { W.bcconf=cs->pc.bcconf; r.shuffle(W.bcconf); tags.clear(); for(auto&b:W.bcconf) tags.push_back(b.bc_tag); }
	for(int k=0;k<nb;k++) { std::string n="bc"+std::to_string(k); FlowBCConfig b; if(cs) b=W.bcconf[k]; else { auto it=nm.begin(); std::advance(it,r.i(0,nm.size()-1)); b.bc_type=it->first; b.bc_tag=tags[k]; if(b.bc_type==ADIABATIC_WALL_BC) b.bc_vals={r.u(-5,5)}; if(b.bc_type==ISOTHERMAL_WALL_BC) b.bc_vals={r.u(-5,5),r.u(100,900)}; if(b.bc_type==SUBSONIC_INFLOW_BC) b.bc_vals={r.u(0.1,9),r.u(100,900)}; if(b.bc_type==PERIODIC_BC) b.bc_opts={tag(),r.i(0,1)}; W.bcconf.push_back(b); }
		CN x(n); x.add("type",q(r,rcase(r,nm.at(b.bc_type)))); x.add("marker",std::to_string(b.bc_tag)); M({"bc",n,"type"}); M({"bc",n,"marker"});
		if(b.bc_type==ADIABATIC_WALL_BC||b.bc_type==ISOTHERMAL_WALL_BC||b.bc_type==SUBSONIC_INFLOW_BC) { std::vector<std::string> v; for(double y:b.bc_vals) v.push_back(num(r,y)); x.add("boundary_values",rlist(r,v)); M({"bc",n,"boundary_values"}); }
		else { if(cs) W.bcconf[k].bc_vals.clear(); } if(b.bc_type==PERIODIC_BC) { x.add("options",rlist(r,{std::to_string(b.bc_opts[0]),std::to_string(b.bc_opts[1])})); M({"bc",n,"options"}); } bc.c.push_back(x); }
	bool surf=false; if(r.p(0.7)) { for(int k=r.p(0.06)?r.i(5,16):r.i(0,4);k>0;k--) W.lwalls.push_back(cs&&tags.size()?r.pick(tags):tag()); std::vector<std::string> v; for(int y:W.lwalls) v.push_back(std::to_string(y)); bc.add("listof_output_wall_boundaries",v.empty()?"\"\"":rlist(r,v)); surf|=!v.empty(); }
	if(r.p(0.7)) { for(int k=r.p(0.06)?r.i(5,16):r.i(0,4);k>0;k--) W.lothers.push_back(cs&&tags.size()?r.pick(tags):tag()); std::vector<std::string> v; for(int y:W.lothers) v.push_back(std::to_string(y)); bc.add("listof_output_other_boundaries",v.empty()?"\"\"":rlist(r,v)); surf|=!v.empty(); }
	W.num_out_walls=W.lwalls.size(); W.num_out_others=W.lothers.size(); if(surf) { W.surfnameprefix=rndName(r)+"s"; bc.add("surface_output_file_prefix",q(r,W.surfnameprefix,true)); M({"bc","surface_output_file_prefix"}); }
	W.vol_output_reqd="NO"; if(r.p(0.5)) { W.vol_output_reqd="YES"; W.volnameprefix=rndName(r)+"v"; bc.add("volume_output_file_prefix",q(r,W.volnameprefix,true)); } if(bc.c.empty()) bc.add("note","none"); R.c.push_back(bc);
	t.unsteady=!cs&&r.p(0.25); W.sim_type=t.unsteady?"UNSTEADY":"STEADY"; W.time_integrator="NONE"; CN ti("time"); ti.add("simulation_type",q(r,rcase(r,W.sim_type))); M({"time","simulation_type"}); if(t.unsteady) { W.final_time=r.lu(1e-6,1e6); bool rk=r.p(0.6); W.time_integrator=rk?"TVDRK":"BDF"; W.time_order=r.i(1,3); ti.add("final_time",num(r,W.final_time)); ti.add("time_integrator",q(r,rcase(r,W.time_integrator))); ti.add("temporal_order",std::to_string(W.time_order)); for(auto k:{"final_time","time_integrator","temporal_order"}) M({"time",k}); if(rk) { W.phy_cfl=r.lu(0.01,6); ti.add("physical_cfl",num(r,W.phy_cfl)); M({"time","physical_cfl"}); } else { W.phy_timestep=r.lu(1e-8,1e4); ti.add("physical_time_step",num(r,W.phy_timestep)); M({"time","physical_time_step"}); } } R.c.push_back(ti);
	CN sp("spatial_discretization"); static const char*const gn[]={"NONE","LEASTSQUARES","GREENGAUSS"}; W.invflux=fluxName[cs?cs->flux:r.i(0,NFLUX-1)]; W.gradientmethod=cs?(cs->o2?gradName[cs->grad]:"NONE"):gn[r.i(0,2)]; W.order2=W.gradientmethod!="NONE"; W.limiter=recName[cs?cs->rec:r.i(0,4)]; sp.add("inviscid_flux",q(r,rcase(r,W.invflux))); sp.add("gradient_method",q(r,rcase(r,W.gradientmethod))); sp.add("limiter",q(r,rcase(r,W.limiter))); for(auto k:{"inviscid_flux","gradient_method","limiter"}) M({"spatial_discretization",k}); t.gaveLim=r.p(0.5); if(t.gaveLim) { t.lim=r.lu(1e-4,1e5); sp.add("limiter_parameter",num(r,t.lim)); } R.c.push_back(sp);
	t.implicit=r.p(0.7); W.pseudotimetype=t.implicit?"IMPLICIT":"EXPLICIT"; CN ps("pseudotime"); ps.add("pseudotime_stepping_type",q(r,rcase(r,W.pseudotimetype))); M({"pseudotime","pseudotime_stepping_type"}); auto phase=[&](const char*n,freal&a,freal&b,freal&tol,int&it) { a=r.p(0.1)?r.lu(1e-6,1e8):r.lu(0.01,100); b=r.p(0.3)?a:r.p(0.15)?a*r.lu(1e-3,1):a*r.lu(1,1000); tol=r.p(0.08)?r.lu(0.9,50):r.p(0.05)?r.lu(1e-30,1e-14):r.lu(1e-14,0.9); it=r.p(0.05)?r.i(100000,2000000000):r.i(0,100000); CN x(n); x.add("cfl_min",num(r,a)); x.add("cfl_max",num(r,b)); x.add("tolerance",num(r,tol)); x.add("max_timesteps",std::to_string(it)); ps.c.push_back(x); for(auto k:{"cfl_min","cfl_max","tolerance","max_timesteps"}) M({"pseudotime",n,k}); };
	phase("main",W.initcfl,W.endcfl,W.tolerance,W.maxiter); W.usestarter=0; W.firstinitcfl=W.firstendcfl=W.firsttolerance=0; W.firstmaxiter=0; if(r.p(0.5)) { W.usestarter=1; phase("initialization",W.firstinitcfl,W.firstendcfl,W.firsttolerance,W.firstmaxiter); }
	W.min_nl_update=0.2; if(t.implicit) { bool full=r.p(0.4); W.nl_update_scheme=full?"FULL":"ROBUST_FLOW"; ps.add("nonlinear_update_scheme",q(r,rcase(r,W.nl_update_scheme))); M({"pseudotime","nonlinear_update_scheme"}); if(r.p(0.6)) { W.min_nl_update=r.p(0.1)?r.lu(1e-5,0.01):r.u(0.01,1); ps.add("min_nonlinear_relaxation_factor",num(r,W.min_nl_update)); } }
	R.c.push_back(ps); W.invfluxjac=W.invflux; if(t.implicit) { bool con=r.p(0.5); static const std::vector<int> jf={LLF,ROE,HLL,HLLC}; std::string j=con?"CONSISTENT":fluxName[r.pick(jf)]; R.add("Jacobian_inviscid_flux",q(r,rcase(r,j))); M({"Jacobian_inviscid_flux"}); if(!con) W.invfluxjac=j; }
	shuffleCN(r,R); return t; }
// parse with the fresh options structure in memory filled with a pattern: what nobody sets keeps the pattern
struct POpt { alignas(64) unsigned char b[sizeof(FlowParserOptions)]; FlowParserOptions*o=nullptr; ~POpt() { if(o) o->~FlowParserOptions(); }
	void parse(const std::vector<std::string>&a,unsigned char fill) { std::vector<const char*> v; for(auto&s:a) v.push_back(s.c_str()); v.push_back(nullptr); int n=a.size(); boost::program_options::options_description d("options"); auto cv=parse_cmd_options(n,v.data(),d); memset(b,fill,sizeof b); o=new(b) FlowParserOptions(parse_flow_controlfile(n,v.data(),cv)); } };
inline bool thr(const std::vector<std::string>&a,std::string*w=nullptr) { try { POpt p; p.parse(a,0xAA); } catch(const std::exception&e) { if(w) *w=e.what(); return true; } return false; }
inline bool sameBC(const FlowBCConfig&a,const FlowBCConfig&b) { return a.bc_tag==b.bc_tag&&a.bc_type==b.bc_type&&a.bc_vals==b.bc_vals&&a.bc_opts==b.bc_opts; }
inline bool deq(double a,double b) { return a==b||(a!=a&&b!=b); }
} // namespace vf
#ifndef VF_NO_MODES
static void mCtrl(Rng&r) { std::string dir=scratch(); mkdir(dir.c_str(),0777); std::string f=dir+(r.p(0.3)?"/c x.ctrl":"/c.ctrl");
	bool behave=r.p(0.35); Case c; std::string mf; if(behave) { c.gm=genMesh(r,mopt(r)); c.setGeo(); static const std::vector<int> all={B_SLIP,B_FAR,B_INOUT,B_EXTRAP,B_ADIA,B_ISO,B_SUBIN}; rndConf(r,c,all,60,0.5); if(!c.visc) { c.G.Tinf=298; c.G.Re=1/0.; c.cvisc=false; } if(c.rec==RC_WENO||c.rec==RC_VENKAT) c.rec=r.p(0.5)?RC_BJ:RC_VANALBADA; if(c.grad==GR_NONE) c.o2=false; if(!c.visc) for(auto&b:c.bc) if(b.second.kind==B_ADIA) b.second.kind=B_SLIP; c.conf(); mf=meshFile(c.gm); }
	Ctl t=behave?rndCtl(r,&c,mf):rndCtl(r); auto&W=t.W; writeCN(r,t.root,f); std::vector<std::string> a={"fvens",f};
	// command-line overrides
	std::string meshKept=W.meshfile; bool cm=!behave&&r.p(0.3),cw=r.p(0.3),cl=r.p(0.3); W.write_final_lin_sys=false; if(cm) { W.meshfile=r.p(0.5)?"other mesh.su2":rndName(r)+".msh"; if(r.p(0.5)) a.push_back("--mesh_file="+W.meshfile); else { a.push_back("--mesh_file"); a.push_back(W.meshfile); } } if(cw) { W.write_final_lin_sys=r.p(0.6); static const char*const y[]={"true","1","yes","on"},*const n[]={"false","0","no","off"}; int k=r.i(0,3); std::string s=W.write_final_lin_sys?y[k]:n[k]; if(r.p(0.5)) a.push_back("--write_final_linear_system="+s); else { a.push_back("--write_final_linear_system"); a.push_back(s); } }
	if(r.p(0.4)) { a.push_back("-options_file"); a.push_back("x.solverc"); } if(r.p(0.3)) { a.push_back("-mesh_reorder"); a.push_back("rcm"); }
	PetscOptionsClearValue(NULL,"-fvens_log_file_prefix"); if(cl) { W.logfile="elsewhere/log"+std::to_string(r.i(0,99)); if(r.p(0.4)) W.logfile="Else/"+std::string(r.i(20,170),'x')+W.logfile; PetscOptionsSetValue(NULL,"-fvens_log_file_prefix",W.logfile.c_str()); }
	rep.at(rep.cur+sf(" %s %s bcs%zu%s%s%s%s%s%s",W.flowtype.c_str(),W.pseudotimetype.c_str(),W.bcconf.size(),t.unsteady?" unsteady":"",W.usestarter?" starter":"",cm?" --mesh_file":"",cw?" --write_final_linear_system":"",cl?" -fvens_log_file_prefix":"",behave?" with mesh":""));
	POpt A,B; { Quiet qq; A.parse(a,0xAA); B.parse(a,0x55); } const FlowParserOptions&X=*A.o,&Y=*B.o;
	auto V=[&](const char*k,const std::string&g,const std::string&w) { rep.viol(std::string("ctrl:value:")+k,"%s, the control file says %s",g.c_str(),w.c_str()); };
#define S_(F) do { if(X.F!=W.F) V(#F,X.F,W.F); } while(0)
	S_(meshfile); S_(vtu_output_file); S_(logfile); S_(flowtype); S_(surfnameprefix); S_(volnameprefix); S_(vol_output_reqd); S_(sim_type); S_(time_integrator); S_(invflux); S_(gradientmethod); S_(limiter); S_(pseudotimetype); S_(invfluxjac); if(t.implicit) S_(nl_update_scheme);
#define D_(F) do { if(!deq(X.F,W.F)) V(#F,sf("%.17g",(double)X.F),sf("%.17g",(double)W.F)); } while(0)
	D_(lognres); D_(write_final_lin_sys); D_(viscsim); D_(gamma); D_(Minf); D_(Tinf); D_(Reinf); D_(useconstvisc); D_(order2); D_(num_out_walls); D_(num_out_others); D_(initcfl); D_(endcfl); D_(tolerance); D_(maxiter); if(t.implicit) D_(min_nl_update); if((X.usestarter!=0)!=(W.usestarter!=0)) V("usestarter",std::to_string(X.usestarter),std::to_string(W.usestarter)); if(W.viscsim) D_(Pr); if(W.usestarter) { D_(firstinitcfl); D_(firstendcfl); D_(firsttolerance); D_(firstmaxiter); } if(t.unsteady) { D_(final_time); D_(time_order); if(W.time_integrator=="TVDRK") D_(phy_cfl); else D_(phy_timestep); }
	if(!(std::fabs(X.alpha-W.alpha)<=4e-16*std::fabs(W.alpha))) V("alpha",sf("%.17g",X.alpha),sf("%.17g",W.alpha));
	if(X.lwalls!=W.lwalls) V("lwalls",sf("%zu markers",X.lwalls.size()),sf("%zu markers",W.lwalls.size())); if(X.lothers!=W.lothers) V("lothers",sf("%zu markers",X.lothers.size()),sf("%zu markers",W.lothers.size()));
	if(X.bcconf.size()!=W.bcconf.size()) V("bcconf",std::to_string(X.bcconf.size()),std::to_string(W.bcconf.size())); else for(size_t k=0;k<W.bcconf.size();k++) if(!sameBC(X.bcconf[k],W.bcconf[k])) { V("bc",sf("bc%zu: type %d marker %d, %zu values (%g %g), %zu options",k,(int)X.bcconf[k].bc_type,X.bcconf[k].bc_tag,X.bcconf[k].bc_vals.size(),X.bcconf[k].bc_vals.size()>0?X.bcconf[k].bc_vals[0]:0,X.bcconf[k].bc_vals.size()>1?X.bcconf[k].bc_vals[1]:0,X.bcconf[k].bc_opts.size()),sf("type %d marker %d, %zu values (%g %g), %zu options",(int)W.bcconf[k].bc_type,W.bcconf[k].bc_tag,W.bcconf[k].bc_vals.size(),W.bcconf[k].bc_vals.size()>0?W.bcconf[k].bc_vals[0]:0,W.bcconf[k].bc_vals.size()>1?W.bcconf[k].bc_vals[1]:0,W.bcconf[k].bc_opts.size())); break; }
	if(t.gaveLim&&X.limiter_param!=t.lim) rep.viol(X.limiter_param==0?"ctrl:limiter-parameter":"ctrl:limiter-parameter-wrong","limiter_parameter %.17g is given, %.17g is used",t.lim,X.limiter_param);
	// nothing arbitrary
#define U_(F) if(memcmp(&X.F,&Y.F,sizeof X.F)) rep.viol("ctrl:unset:" #F,"two parses of the same file give different values (left unset)")
	U_(initcfl); U_(endcfl); U_(tolerance); U_(firstinitcfl); U_(firstendcfl); U_(firsttolerance); U_(Minf); U_(alpha); U_(Reinf); U_(Tinf); U_(Pr); U_(gamma); U_(limiter_param); U_(final_time); U_(phy_timestep); U_(phy_cfl); U_(min_nl_update); U_(maxiter); U_(rampstart); U_(rampend); U_(firstmaxiter); U_(firstrampstart); U_(firstrampend); U_(num_out_walls); U_(num_out_others); U_(time_order); U_(soln_init_type); U_(usestarter); U_(lognres); U_(write_final_lin_sys); U_(useconstvisc); U_(viscsim); U_(order2);
	for(unsigned k=0;k<X.bcconf.size()&&k<Y.bcconf.size();k++) if(!sameBC(X.bcconf[k],Y.bcconf[k])) rep.viol("ctrl:unset:bc","two parses of the same file give different boundary conditions");
	// configurations handed to the discretisation
	{ FlowPhysicsConfig p=extract_spatial_physics_config(X); FlowNumericsConfig n=extract_spatial_numerics_config(X),n1=firstorder_spatial_numerics_config(X); bool g=deq(p.gamma,X.gamma)&&deq(p.Minf,X.Minf)&&deq(p.Tinf,X.Tinf)&&deq(p.Reinf,X.Reinf)&&deq(p.Pr,X.Pr)&&deq(p.aoa,X.alpha)&&p.viscous_sim==X.viscsim&&p.const_visc==X.useconstvisc&&p.bcconf.size()==X.bcconf.size(); for(size_t k=0;k<p.bcconf.size()&&g;k++) g=sameBC(p.bcconf[k],X.bcconf[k]); if(!g) rep.viol("ctrl:physics-config","the physical configuration differs from the control file"); if(n.conv_numflux!=X.invflux||n.conv_numflux_jac!=X.invfluxjac||n.gradientscheme!=X.gradientmethod||n.reconstruction!=X.limiter||n.limiter_param!=X.limiter_param||n.order2!=X.order2) rep.viol("ctrl:numerics-config","the numerical configuration differs from the control file"); if(n1.conv_numflux!=X.invflux||n1.conv_numflux_jac!=X.invfluxjac||n1.order2) rep.viol("ctrl:starter-config","the first-order configuration differs from the control file"); }
	rep.count("control files compared"); rep.eval(mix(hashs(rep.cur),r.next())); rep.sample(rep.cur);
	// missing mandatory settings
	for(int k=0;k<2&&!t.must.empty();k++) { auto m=r.pick(t.must); if(m.first.back()=="mesh_file"&&cm) continue; Ctl t2=t; std::vector<std::string> par(m.first.begin(),m.first.end()-1); CN*p=at(t2.root,par); for(size_t i=0;i<p->c.size();i++) if(p->c[i].k==m.first.back()) { p->c.erase(p->c.begin()+i); break; } std::string pth; for(auto&s:m.first) pth+=(pth.empty()?"":".")+s; if(p->c.empty()) p->add("note","none");
		writeCN(r,t2.root,f); bool e; { Quiet qq; e=thr(a); } if(!e) { std::string gk=m.first.size()==3&&m.first[0]=="bc"?"bc.bcN."+m.first[2]:pth; rep.viol("ctrl:missing:"+gk,"%s is missing and the control file is accepted",pth.c_str()); } rep.count("control files with a missing setting"); rep.eval(mix(hashs(pth),r.next())); }
	// values that are not what they must be
	if(r.p(0.5)) { auto m=r.pick(t.must); Ctl t2=t; CN*x=at(t2.root,m.first); std::string key=m.first.back(),pth; for(auto&s:m.first) pth+=(pth.empty()?"":".")+s; std::string old=x->v; bool use=false; int what=0;
		static const std::set<std::string> nums={"adiabatic_index","angle_of_attack","freestream_Mach_number","freestream_temperature","freestream_Reynolds_number","Prandtl_number","marker","final_time","temporal_order","physical_cfl","physical_time_step","cfl_min","cfl_max","tolerance","max_timesteps","convergence_history_required"};
		if(nums.count(key)) { static const char*const bad[]={"abc","\"\"","1.4x","\"1 2\"","--3","{"}; x->v=bad[r.i(0,4)]; use=true; what=1; } else if(key=="type"||key=="flow_type"||key=="pseudotime_stepping_type") { static const char*const bad[]={"nosuch","\"\"","farfields","slip","wall","impl","eulerian","navier","implicitly","explicit2","\"slipwall \"","rans"}; x->v=bad[r.i(0,11)]; use=true; what=2; } else if(key=="boundary_values"||key=="options") { x->v= r.p(0.5)?"\"\"":"\"abc\""; if(r.p(0.4)&&key=="options") x->v="3"; use=true; what=3; }
		if(use) { writeCN(r,t2.root,f); bool e; { Quiet qq; e=thr(a); } if(!e) rep.viol("ctrl:bad-"+std::string(what==1?"number":what==2?"name":"list")+":"+key,"%s %s is accepted",pth.c_str(),x->v.c_str()); rep.count("control files with a wrong value"); rep.eval(mix(hashs(pth+x->v),r.next())); } }
	// scheme names are only looked up when the discretisation and the solver are made
	if(behave) { writeCN(r,t.root,f); UMesh<freal,NDIM>*m; { Quiet qq; m=new UMesh<freal,NDIM>(constructMeshFlow(X,"")); } LMesh L; L.m.reset(m); bool mapped=L.mapCells(c.gm,*c.geo); if(mapped) {
		Vec u; { Quiet qq; initializeSystemVector(X,*m,&u); } const PetscScalar*ua; VecGetArrayRead(u,&ua); c.G.Tinf=X.Tinf; for(int e=0;e<m->gnelem();e++) for(int i=0;i<4;i++) if(!(std::fabs(ua[4*e+i]-c.uinf[i])<=1e-13*(std::fabs(c.uinf[i])+c.uinf[3]))) { rep.viol("ctrl:initial-state","cell %d component %d: %.15g, free stream %.15g",e,i,ua[4*e+i],c.uinf[i]); e=m->gnelem(); break; } VecRestoreArrayRead(u,&ua);
		setState(r,c,r.lu(1e-3,0.3),r.i(0,1)); RefRes R=refResidual(c,c.u); { std::unique_ptr<const FlowFV_base<freal>> s; { Quiet qq; s.reset(create_const_flowSpatialDiscretization<freal>(m,extract_spatial_physics_config(X),extract_spatial_numerics_config(X))); }
			if(!R.bad) { PetscScalar*w; VecGetArray(u,&w); for(int e=0;e<m->gnelem();e++) for(int i=0;i<4;i++) w[4*e+i]=c.u[L.cell[e]][i]; VecRestoreArray(u,&w); VecGhostUpdateBegin(u,INSERT_VALUES,SCATTER_FORWARD); VecGhostUpdateEnd(u,INSERT_VALUES,SCATTER_FORWARD); Vec rr; VecDuplicate(u,&rr); VecSet(rr,0); s->compute_residual(u,rr,false,NULL); const PetscScalar*ra; VecGetArrayRead(rr,&ra);
				for(int e=0;e<m->gnelem();e++) { int g=L.cell[e]; if(R.skip[g]) continue; for(int i=0;i<4;i++) { double cond=1; if(c.o2) cond=1e4; if(!(std::fabs(ra[4*e+i]+R.r[g][i])<=1e-10*cond*R.scale[g][i])) { rep.viol("ctrl:behaviour","the residual of the configured discretisation is %.12g in cell %d component %d, of the configuration in the control file %.12g; %s",ra[4*e+i],g,i,-R.r[g][i],c.describe().c_str()); e=m->gnelem(); break; } } } VecRestoreArrayRead(rr,&ra); VecDestroy(&rr); rep.count("discretisations built from control files compared"); } }
		VecDestroy(&u);
		static const std::vector<std::pair<std::vector<std::string>,int>> nk={{{"spatial_discretization","inviscid_flux"},0},{{"spatial_discretization","gradient_method"},1},{{"spatial_discretization","limiter"},2},{{"Jacobian_inviscid_flux"},3},{{"pseudotime","nonlinear_update_scheme"},4}}; auto k=r.pick(nk); if(!(k.second>=3&&!t.implicit)) { Ctl t2=t; CN*x=at(t2.root,k.first); static const char*const bad[]={"nosuch","roes","\"\"","laxfriedrich","least_squares","green","bj","venkat","fully","\"roe \"","van leer"}; x->v=bad[r.i(0,9)]; writeCN(r,t2.root,f); bool e=false; try { Quiet qq; POpt p; p.parse(a,0); std::unique_ptr<const FlowFV_base<freal>> s(create_const_flowSpatialDiscretization<freal>(m,extract_spatial_physics_config(*p.o),extract_spatial_numerics_config(*p.o))); std::unique_ptr<const NonlinearUpdate<4>> nu(create_const_nonlinearUpdateScheme<4>(*p.o)); } catch(const std::exception&) { e=true; } if(!e) rep.viol("ctrl:bad-name:"+k.first.back(),"%s is accepted as %s",x->v.c_str(),k.first.back().c_str()); rep.count("unknown scheme names in control files"); } } }
	PetscOptionsClearValue(NULL,"-fvens_log_file_prefix"); unlink(f.c_str()); if(!mf.empty()) unlink(mf.c_str()); }
// ---------------------------------------------------------------- selection by name
template<class F> static int inChild(F fn,double tmo=20) { fflush(nullptr); pid_t p=fork(); if(p==0) { int nl=open("/dev/null",O_WRONLY); dup2(nl,1); dup2(nl,2); int rc=3; try { rc=fn(); } catch(const std::exception&) { rc=10; } catch(...) { rc=11; } _exit(rc); } int st=0; double t=0; while(waitpid(p,&st,WNOHANG)==0) { usleep(1000); t+=0.001; if(t>tmo) { kill(p,SIGKILL); waitpid(p,&st,0); return 2000; } } return WIFEXITED(st)?WEXITSTATUS(st):1000+WTERMSIG(st); }
static std::string badName(Rng&r,const std::vector<std::string>&good) { std::string s; do { int k=r.i(0,6); std::string g=r.pick(good); if(k==0) { s=""; for(int i=r.i(0,12);i>0;i--) s+=(char)r.i(32,126); } else if(k==1) s=g.substr(0,r.i(0,(int)g.size()-1)); else if(k==2) s=g+(char)r.i('A','Z'); else if(k==3) { s=g; s[r.i(0,(int)s.size()-1)]=(char)r.i('A','Z'); } else if(k==4) { s=g; std::swap(s[0],s[s.size()-1]); } else if(k==5) s=" "+g; else s=g+g; } while(std::find(good.begin(),good.end(),s)!=good.end()); return s; }
static std::string lower(std::string s) { for(auto&c:s) c=tolower(c); return s; }
static void mNames(Rng&r,long) {
	Case c; c.gm=genMesh(r,mopt(r)); c.setGeo(); static const std::vector<int> all={B_SLIP,B_FAR,B_INOUT,B_EXTRAP,B_ADIA,B_ISO}; rndConf(r,c,all,0,1); c.conf(); c.desc=c.describe(); rep.at(rep.cur+" "+c.desc); IdealGasPhysics<freal> phy(c.pc.gamma,c.pc.Minf,c.pc.Tinf,c.pc.Reinf,c.pc.Pr);
	LMesh L; std::string mf=meshFile(c.gm); { Quiet q; if(!L.build(c.gm,*c.geo,mf)) return; } unlink(mf.c_str());
	std::vector<std::string> fl(fluxName,fluxName+NFLUX),gn(gradName,gradName+3),rn(recName,recName+5),un={"FULL","ROBUST_FLOW"},jn; rep.eval(mix(hashs(c.desc),1)); rep.sample(c.desc);
	// documented names give the scheme: by its behaviour
	{ double a[4],b[4],th=r.u(0,6.283),n[2]={std::cos(th),std::sin(th)}; for(int k=0;k<2;k++) rndState(r,c.G,k?b:a); std::vector<std::array<double,4>> ref(NFLUX),got(NFLUX); std::vector<double> mg(NFLUX); for(int k=0;k<NFLUX;k++) { rFlux(k,c.G,a,b,n,ref[k].data(),&mg[k]); std::unique_ptr<const InviscidFlux<freal>> f; { Quiet q; f.reset(create_const_inviscidflux<freal>(fluxName[k],&phy)); } f->get_flux(a,b,n,got[k].data()); double ve=std::max(std::hypot(a[1],a[2])/a[0]+rC(c.G,a),std::hypot(b[1],b[2])/b[0]+rC(c.G,b)),s0=std::max(a[0],b[0])*ve,sc[4]={s0,s0*ve,s0*ve,s0*ve*ve+std::max(a[3],b[3])*ve}; if(mg[k]>1e-6) for(int i=0;i<4;i++) if(!(std::fabs(got[k][i]-ref[k][i])<=1e-8*sc[i])) { rep.viol(std::string("names:flux:")+fluxName[k],"component %d of the flux selected by this name is %.12g, of the scheme %.12g",i,got[k][i],ref[k][i]); break; } rep.count("fluxes by name"); } }
	// gradients and reconstructions by their dynamic behaviour in a residual
	{ int rec=r.i(0,4),gr=r.i(1,2); c.rec=rec; c.grad=gr; c.o2=true; c.visc=false; c.lim=rec==RC_WENO?r.lu(1,1e3):r.lu(0.1,10); c.conf(); setState(r,c,r.lu(0.01,0.3),r.i(0,1)); RefRes R=refResidual(c,c.u); if(!R.bad) { Lib B; { Quiet q; B.mesh(c); if(B.ok) B.disc(c); } if(B.ok) { B.set(c.u); B.residual(false); auto v=B.get(B.r); Ref RR(c.gm,*c.geo); double cm=1; for(double x:RR.cond) cm=std::max(cm,x); for(size_t e=0;e<B.lm.cell.size();e++) for(int i=0;i<4;i++) { int g=B.lm.cell[e]; if(R.skip[g]) continue; if(!(std::fabs(v[4*e+i]+R.r[g][i])<=1e-7*cm*(R.scale[g][i]+1e-300))) { rep.viol(std::string("names:scheme:")+gradName[gr]+"/"+recName[rec],"cell %d component %d: %.12g, with the schemes of these names %.12g",g,i,v[4*e+i],-R.r[g][i]); e=B.lm.cell.size(); break; } } rep.count("discretisations by name"); } unlink((scratch()+"/m.msh").c_str()); } }
	// boundary types
	{ static const std::map<std::string,int> bn={{"slipwall",SLIP_WALL_BC},{"farfield",FARFIELD_BC},{"inflowoutflow",INFLOW_OUTFLOW_BC},{"subsonic_inflow",SUBSONIC_INFLOW_BC},{"extrapolation",EXTRAPOLATION_BC},{"adiabaticwall",ADIABATIC_WALL_BC},{"isothermalwall",ISOTHERMAL_WALL_BC},{"periodic",PERIODIC_BC}}; for(auto&b:bn) { auto it=bcTypeMap.right.find(b.first); if(it==bcTypeMap.right.end()||it->second!=b.second) rep.viol("names:boundary:"+b.first,"the name stands for another condition or for none"); auto jt=bcTypeMap.left.find((BCType)b.second); if(jt==bcTypeMap.left.end()||jt->second!=b.first) rep.viol("names:boundary-name:"+b.first,"the condition has another name"); } if(bcTypeMap.size()!=bn.size()) rep.viol("names:boundary-count","%zu names",bcTypeMap.size()); rep.count("boundary names",bn.size());
		// each type makes the condition of that name
		int kind=r.pick(std::vector<int>{B_SLIP,B_FAR,B_INOUT,B_EXTRAP,B_ADIA,B_ISO,B_SUBIN}); BCd e=rndBC(r,c.G,kind); FlowBCConfig bc; bc.bc_tag=7; static const std::map<int,std::string> kn={{B_SLIP,"slipwall"},{B_FAR,"farfield"},{B_INOUT,"inflowoutflow"},{B_EXTRAP,"extrapolation"},{B_ADIA,"adiabaticwall"},{B_ISO,"isothermalwall"},{B_SUBIN,"subsonic_inflow"}}; auto it=bcTypeMap.right.find(kn.at(kind)); if(it!=bcTypeMap.right.end()) { bc.bc_type=it->second; if(kind==B_ADIA) bc.bc_vals={e.v0}; if(kind==B_ISO||kind==B_SUBIN) bc.bc_vals={e.v0,e.v1*c.G.Tinf}; std::array<freal,4> ui; for(int i=0;i<4;i++) ui[i]=c.uinf[i]; std::map<int,const FlowBC<freal>*> m; { Quiet q; m=create_const_flowBCs<freal>({bc},phy,ui); } double a[4],g[4],w[4],th=r.u(0,6.283),n[2]={std::cos(th),std::sin(th)},mg=1; rndState(r,c.G,a); for(int i=0;i<4;i++) e.uinf[i]=c.uinf[i]; rGhost(e,c.G,a,n,w,&mg); if(m.size()!=1||!m.count(7)) rep.viol("names:boundary-map","marker 7 has no condition"); else { m[7]->computeGhostState(a,n,g); double sc[4]={a[0]+w[0],0,0,0}; double ve=std::max(std::hypot(a[1],a[2])/a[0]+rC(c.G,a),std::hypot(w[1],w[2])/w[0]+rC(c.G,w)); sc[1]=sc[2]=sc[0]*ve; sc[3]=sc[1]*ve+a[3]; if(mg>1e-6) for(int i=0;i<4;i++) if(!(std::fabs(g[i]-w[i])<=1e-9*sc[i])) { rep.viol("names:boundary-behaviour:"+kn.at(kind),"ghost state component %d is %.12g, of the condition of this name %.12g",i,g[i],w[i]); break; } } for(auto&x:m) delete x.second; rep.count("boundary conditions by name"); } }
	// update rules
	for(auto&n:un) { FlowParserOptions o; o.gamma=1.4; o.Minf=0.5; o.Tinf=300; o.Reinf=1000; o.Pr=0.7; o.min_nl_update=r.u(0.05,0.9); o.nl_update_scheme=n; std::unique_ptr<const NonlinearUpdate<4>> f(create_const_nonlinearUpdateScheme<4>(o)); Gas G; G.g=1.4; G.M=0.5; G.Tinf=300; G.Re=1000; G.Pr=0.7; double u[4],d[4]; rndState(r,G,u); for(int i=0;i<4;i++) d[i]=-u[i]*0.99; double w=f->getLocalRelaxationFactor(d,u); if(n=="FULL"?w!=1:std::fabs(w-o.min_nl_update)>1e-12) rep.viol("names:update:"+n,"factor %.12g (smallest %.12g)",w,o.min_nl_update); rep.count("update rules by name"); }
	// unknown names: an error before any computation, never a silent replacement or a crash
	std::vector<double> rc; auto outc=[&](const std::string&what,const std::string&name,int st) { rep.count("unknown names"); rep.eval(mix(hashs(what+name),2)); if(st==10) return; rep.viol("names:unknown-"+what+":"+(st==0?"accepted":st==11?"not-an-exception":st==2000?"hang":st>=1000?"signal":"exit"),"\"%s\": status %d",name.c_str(),st); };
	std::string nm; int w=r.i(0,6); nm=badName(r,w==0?fl:w==1?fl:w==2?gn:w==3?rn:w==4?un:fl);
	switch(w) { case 0: outc("flux",nm,inChild([&] { auto f=create_const_inviscidflux<freal>(nm,&phy); (void)f; return 0; })); break;
		case 1: { bool jac=r.p(0.5); outc(jac?"Jacobian-flux":"flux",nm,inChild([&] { auto nc=c.nc; (jac?nc.conv_numflux_jac:nc.conv_numflux)=nm; auto s=create_const_flowSpatialDiscretization<freal>(L.m.get(),c.pc,nc); (void)s; return 0; })); break; }
		case 2: outc("gradient-scheme",nm,inChild([&] { auto nc=c.nc; nc.order2=r.p(0.5); nc.gradientscheme=nm; auto s=create_const_flowSpatialDiscretization<freal>(L.m.get(),c.pc,nc); (void)s; return 0; })); break;
		case 3: outc("limiter",nm,inChild([&] { auto nc=c.nc; nc.order2=r.p(0.5); nc.reconstruction=nm; auto s=create_const_flowSpatialDiscretization<freal>(L.m.get(),c.pc,nc); (void)s; return 0; })); break;
		case 4: outc("update-rule",nm,inChild([&] { FlowParserOptions o; o.gamma=1.4; o.Minf=0.5; o.Tinf=300; o.Reinf=1000; o.Pr=0.7; o.min_nl_update=0.2; o.nl_update_scheme=nm; auto s=create_const_nonlinearUpdateScheme<4>(o); (void)s; return 0; })); break;
		default: { // through the control file, in any case of letters
			Ctl t=rndCtl(r); static const std::vector<std::string> bt={"slipwall","farfield","inflowoutflow","subsonic_inflow","extrapolation","adiabaticwall","isothermalwall","periodic"}; int k=r.i(0,2); std::vector<std::string> path; if(k==0&&t.W.bcconf.empty()) k=1; std::string bad; auto clean=[&](std::string s) { for(auto&ch:s) if(ch=='"'||ch=='\\'||ch=='\n') ch='_'; return s; };
			if(k==0) { path={"bc","bc"+std::to_string(r.i(0,(int)t.W.bcconf.size()-1)),"type"}; do bad=clean(badName(r,bt)); while(std::find(bt.begin(),bt.end(),lower(bad))!=bt.end()); } else if(k==1) { path={"flow_conditions","flow_type"}; std::vector<std::string> g={"euler","navierstokes"}; do bad=clean(badName(r,g)); while(std::find(g.begin(),g.end(),lower(bad))!=g.end()); } else { path={"pseudotime","pseudotime_stepping_type"}; std::vector<std::string> g={"implicit","explicit"}; do bad=clean(badName(r,g)); while(std::find(g.begin(),g.end(),lower(bad))!=g.end()); }
			at(t.root,path)->v="\""+bad+"\""; std::string f=scratch()+"/n.ctrl"; writeCN(r,t.root,f,true); outc("control-file-"+path.back(),bad,inChild([&] { POpt p; p.parse({"fvens",f},0); return 0; })); unlink(f.c_str()); } }
}
#endif
#endif
