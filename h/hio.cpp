// Files and configuration: mesh formats, derived fields and exported files, control files, scheme names. argv[1] selects the mode.
#include <iostream>
#include <fstream>
#include <sstream>
#include "prog.hpp"
#include "spatial/aoutput.hpp"
#include "spatial/diffusion.hpp"
namespace vf { Rep rep; AsFound asFound; }
static MOpt mopt(Rng&r) { MOpt o; o.nmin=1; o.nmax= mpiSize()>1? 8:7; if(mpiSize()>1) o.nmin=3; if(r.p(0.12)) { o.nmin=o.nmax=mpiSize()>1?3:r.i(1,2); } return o; }

// ---------------------------------------------------------------- mesh files
struct Tags { std::vector<std::vector<int>> b,c; };
static void writeMshV(Rng&r,const GMesh&g,const Tags&t,const std::string&f,bool odd) { std::ofstream o(f); o.precision(17); auto sp=[&] { return odd&&r.p(0.2)?"  ":odd&&r.p(0.1)?"\t":" "; }; o<<"$MeshFormat\n2.2 0 8\n$EndMeshFormat\n$Nodes\n"<<g.p.size()<<"\n"; double z=odd&&r.p(0.3)?r.u(-1,1):0; for(size_t k=0;k<g.p.size();k++) o<<k+1<<sp()<<g.p[k][0]<<sp()<<g.p[k][1]<<sp()<<z<<"\n"; o<<"$EndNodes\n$Elements\n"<<g.bf.size()+g.el.size()<<"\n"; int n=1; for(size_t k=0;k<g.bf.size();k++) { o<<n++<<sp()<<1<<sp()<<t.b[k].size(); for(int x:t.b[k]) o<<sp()<<x; o<<sp()<<g.bf[k].a+1<<sp()<<g.bf[k].b+1<<"\n"; } for(size_t k=0;k<g.el.size();k++) { o<<n++<<sp()<<(g.el[k].size()==3?2:3)<<sp()<<t.c[k].size(); for(int x:t.c[k]) o<<sp()<<x; for(int v:g.el[k]) o<<sp()<<v+1; o<<"\n"; } o<<"$EndElements\n"; }
static void writeSu2V(Rng&r,const GMesh&g,const std::string&f,bool odd,std::vector<int>&order) { std::ofstream o(f); o.precision(17); auto eq=[&] { return odd?(r.p(0.5)?"=":r.p(0.5)?"= ":" =  "):"= "; }; auto com=[&](const char*c) { if(odd&&r.p(0.5)) o<<"%\n% "<<c<<"\n%\n"; }; com("dimension"); o<<"NDIME"<<eq()<<"2\n"; com("elements"); o<<"NELEM"<<eq()<<g.el.size()<<"\n"; for(size_t c=0;c<g.el.size();c++) { o<<(g.el[c].size()==3?5:9); for(int v:g.el[c]) o<<" "<<v; o<<" "<<c<<"\n"; } com("nodes"); o<<"NPOIN"<<eq()<<g.p.size()<<"\n"; for(size_t k=0;k<g.p.size();k++) o<<g.p[k][0]<<" "<<g.p[k][1]<<" "<<k<<"\n"; com("boundaries");
	std::vector<int> tg=meshTags(g); r.shuffle(tg); if(odd&&r.p(0.3)) tg.insert(tg.begin()+r.i(0,tg.size()),std::count(tg.begin(),tg.end(),99)?98989898:99); o<<"NMARK"<<eq()<<tg.size()<<"\n"; order.clear(); for(size_t q=0;q<tg.size();q++) { int t=tg[q],n=0; for(auto&b:g.bf) n+=b.tag==t; o<<"MARKER_TAG"<<eq()<<t<<"\nMARKER_ELEMS"<<eq()<<n<<"\n"; bool last=q+1==tg.size(); int k=0; for(size_t b=0;b<g.bf.size();b++) if(g.bf[b].tag==t) { o<<"3 "<<g.bf[b].a<<" "<<g.bf[b].b; k++; if(!(last&&k==n&&odd&&r.p(0.5))) o<<"\n"; order.push_back(b); } } }
// what a reader returned, against the generator's mesh; border: file order of the boundary faces
static bool checkData(const char*K,const MeshData&d,const GMesh&g,const Tags&t,const std::vector<int>&bo,bool su2) { std::string k(K); bool ok=true; auto V=[&](const char*w,const std::string&m) { if(ok) rep.viol(k+":"+w,"%s",m.c_str()); ok=false; };
	if(d.npoin!=(int)g.p.size()||d.nelem!=(int)g.el.size()||d.nbface!=(int)g.bf.size()||d.nnofa!=2||(int)d.nnode.size()!=d.nelem||(int)d.nfael.size()!=d.nelem||d.coords.rows()!=d.npoin||d.coords.cols()!=2||d.inpoel.rows()!=d.nelem||d.bface.rows()!=d.nbface) { V("counts",sf("%d points %d cells %d boundary faces; the file has %zu %zu %zu",(int)d.npoin,(int)d.nelem,(int)d.nbface,g.p.size(),g.el.size(),g.bf.size())); return false; }
	for(int v=0;v<d.npoin&&ok;v++) for(int q=0;q<2;q++) if(d.coords.get(v,q)!=g.p[v][q]) V("coords",sf("point %d: %.17g for %.17g",v,d.coords.get(v,q),g.p[v][q]));
	size_t mb=0,mc=0,mn=0; for(auto&x:t.b) mb=std::max(mb,x.size()); for(auto&x:t.c) mc=std::max(mc,x.size()); for(auto&e:g.el) mn=std::max(mn,e.size());
	if(d.nbtag!=(su2?1:(int)mb)||d.ndtag!=(su2?0:(int)mc)) V("tag-count",sf("%d boundary tags %d cell tags; the file has %zu %zu",d.nbtag,d.ndtag,mb,mc)); if(d.maxnnode<(int)mn||d.maxnnode>4||d.maxnfael<(int)mn||d.maxnfael>4) V("max-nodes",sf("%d %d",d.maxnnode,d.maxnfael));
	for(int e=0;e<d.nelem&&ok;e++) { int n=g.el[e].size(); if(d.nnode[e]!=n||d.nfael[e]!=n) { V("cell-size",sf("cell %d",e)); break; } for(int j=0;j<n;j++) if(d.inpoel.get(e,j)!=g.el[e][j]) V("cell-nodes",sf("cell %d node %d: %d for %d",e,j,(int)d.inpoel.get(e,j),g.el[e][j])); if(!su2) for(size_t q=0;q<t.c[e].size();q++) if(d.vol_regions.get(e,q)!=t.c[e][q]) V("region",sf("cell %d tag %zu: %d for %d",e,q,d.vol_regions.get(e,q),t.c[e][q])); }
	for(int b=0;b<d.nbface&&ok;b++) { const auto&x=g.bf[bo[b]]; if(d.bface.get(b,0)!=x.a||d.bface.get(b,1)!=x.b) V("boundary-nodes",sf("boundary face %d",b)); if(su2) { if(d.bface.get(b,2)!=x.tag) V("marker",sf("boundary face %d: %d for %d",b,(int)d.bface.get(b,2),x.tag)); } else for(size_t q=0;q<t.b[bo[b]].size();q++) if(d.bface.get(b,2+q)!=t.b[bo[b]][q]) V("marker",sf("boundary face %d tag %zu: %d for %d",b,q,(int)d.bface.get(b,2+q),t.b[bo[b]][q])); }
	return ok; }
// a written Gmsh file against the mesh data it was written from
static bool checkMshText(const char*K,const std::string&f,const GMesh&g,const Tags&t,const std::vector<int>&bo,bool su2) { std::string k(K); MshFile w=parseMsh(f); if(!w.ok) { rep.viol(k+":written-file","%s",w.why.c_str()); return false; }
	if(w.p.size()!=g.p.size()||w.cn.size()!=g.el.size()||w.bn.size()!=g.bf.size()) { rep.viol(k+":written-counts","%zu points %zu cells %zu boundary faces for %zu %zu %zu",w.p.size(),w.cn.size(),w.bn.size(),g.p.size(),g.el.size(),g.bf.size()); return false; }
	for(size_t v=0;v<g.p.size();v++) if(w.p[v][0]!=g.p[v][0]||w.p[v][1]!=g.p[v][1]||w.p[v][2]!=0) { rep.viol(k+":written-coords","point %zu",v); return false; }
	for(size_t e=0;e<g.el.size();e++) { if(w.cn[e]!=g.el[e]) { rep.viol(k+":written-cell","cell %zu",e); return false; } if(w.ct[e].size()<2) { rep.viol(k+":written-tags","cell %zu has %zu tags",e,w.ct[e].size()); return false; } if(!su2) for(size_t q=0;q<t.c[e].size();q++) if(w.ct[e].size()<=q||w.ct[e][q]!=t.c[e][q]) { rep.viol(k+":written-region","cell %zu tag %zu",e,q); return false; } }
	for(size_t b=0;b<g.bf.size();b++) { const auto&x=g.bf[bo[b]]; if(w.bn[b]!=std::vector<int>{x.a,x.b}) { rep.viol(k+":written-boundary","boundary face %zu",b); return false; } if(w.bt[b].size()<2) { rep.viol(k+":written-tags","boundary face %zu has %zu tags",b,w.bt[b].size()); return false; } std::vector<int> one={x.tag}; const auto&tt=su2?one:t.b[bo[b]]; for(size_t q=0;q<tt.size();q++) if(w.bt[b].size()<=q||w.bt[b][q]!=tt[q]) { rep.viol(k+":written-marker","boundary face %zu tag %zu",b,q); return false; } }
	// elementary tags of the same physical tag agree, of different ones differ, where the writer had to invent them
	rep.count("written mesh files compared"); return true; }
static void quadraticRound(Rng&r) { // files with quadratic elements: what is read is what is written
	int t6=r.p(0.5); int nx=r.i(1,3),ny=r.i(1,3),kind=r.i(0,2); int NX=2*nx+1,NY=2*ny+1; auto id=[&](int i,int j) { return j*NX+i; }; std::vector<P2> p; for(int j=0;j<NY;j++) for(int i=0;i<NX;i++) p.push_back({i+r.u(-.1,.1),j+r.u(-.1,.1)}); std::vector<std::pair<int,std::vector<int>>> el; for(int j=0;j<ny;j++) for(int i=0;i<nx;i++) { int a=2*i,b=2*j; int k=kind==0||(kind==2&&r.p(0.5)); if(k) { el.push_back({9,{id(a,b),id(a+2,b),id(a+2,b+2),id(a+1,b),id(a+2,b+1),id(a+1,b+1)}}); el.push_back({9,{id(a,b),id(a+2,b+2),id(a,b+2),id(a+1,b+1),id(a+1,b+2),id(a,b+1)}}); } else if(t6) el.push_back({16,{id(a,b),id(a+2,b),id(a+2,b+2),id(a,b+2),id(a+1,b),id(a+2,b+1),id(a+1,b+2),id(a,b+1)}}); else el.push_back({10,{id(a,b),id(a+2,b),id(a+2,b+2),id(a,b+2),id(a+1,b),id(a+2,b+1),id(a+1,b+2),id(a,b+1),id(a+1,b+1)}}); }
	std::vector<std::vector<int>> bf; for(int i=0;i<nx;i++) { bf.push_back({id(2*i,0),id(2*i+2,0),id(2*i+1,0),1}); bf.push_back({id(2*i+2,NY-1),id(2*i,NY-1),id(2*i+1,NY-1),2}); } for(int j=0;j<ny;j++) { bf.push_back({id(0,2*j),id(0,2*j+2),id(0,2*j+1),3}); bf.push_back({id(NX-1,2*j),id(NX-1,2*j+2),id(NX-1,2*j+1),4}); } r.shuffle(bf); r.shuffle(el);
	std::string f=scratch()+"/q.msh",f2=scratch()+"/q2.msh"; { std::ofstream o(f); o.precision(17); o<<"$MeshFormat\n2.2 0 8\n$EndMeshFormat\n$Nodes\n"<<p.size()<<"\n"; for(size_t k=0;k<p.size();k++) o<<k+1<<" "<<p[k][0]<<" "<<p[k][1]<<" 0\n"; o<<"$EndNodes\n$Elements\n"<<bf.size()+el.size()<<"\n"; int n=1; for(auto&b:bf) o<<n++<<" 8 2 "<<b[3]<<" "<<b[3]+10<<" "<<b[0]+1<<" "<<b[1]+1<<" "<<b[2]+1<<"\n"; for(auto&e:el) { o<<n++<<" "<<e.first<<" 2 5 6"; for(int v:e.second) o<<" "<<v+1; o<<"\n"; } o<<"$EndElements\n"; }
	Quiet q; MeshData d=readMesh(f); Mesh m(d); m.writeGmsh2(f2); MeshData d2=readMesh(f2); for(const MeshData*x:{&d,&d2}) { bool ok=x->npoin==(int)p.size()&&x->nelem==(int)el.size()&&x->nbface==(int)bf.size()&&x->nnofa==3&&x->nbtag==2&&x->ndtag==2; for(int k=0;k<x->npoin&&ok;k++) ok=x->coords.get(k,0)==p[k][0]&&x->coords.get(k,1)==p[k][1]; for(size_t e=0;e<el.size()&&ok;e++) { ok=x->nnode[e]==(int)el[e].second.size()&&x->nfael[e]==(el[e].first==9?3:4)&&x->vol_regions.get(e,0)==5&&x->vol_regions.get(e,1)==6; for(int j=0;j<x->nnode[e]&&ok;j++) ok=x->inpoel.get(e,j)==el[e].second[j]; } for(size_t b=0;b<bf.size()&&ok;b++) ok=x->bface.get(b,0)==bf[b][0]&&x->bface.get(b,1)==bf[b][1]&&x->bface.get(b,2)==bf[b][2]&&x->bface.get(b,3)==bf[b][3]&&x->bface.get(b,4)==bf[b][3]+10; if(!ok) rep.viol("files:quadratic","%s: a mesh of quadratic elements is changed",x==&d?"reading":"writing and reading back"); }
	unlink(f.c_str()); unlink(f2.c_str()); rep.count("quadratic meshes"); rep.eval(mix(77,el.size()*1000+bf.size()+kind)); }
static void mIo(Rng&r) {
	if(r.p(0.05)) { quadraticRound(r); return; }
	GMesh g=genMesh(r,mopt(r)); Geo G(g); Tags t; int ntb=r.i(1,4),nte=r.i(1,4); bool vary=r.p(0.2),odd=r.p(0.4); int maxb=0; for(auto&b:g.bf) { int n=vary?r.i(1,ntb):ntb; std::vector<int> x; for(int k=0;k<n;k++) x.push_back(b.tag+1000*k); t.b.push_back(x); maxb=std::max(maxb,n); } for(int c:g.reg) { int n=vary?r.i(1,nte):nte; std::vector<int> x; for(int k=0;k<n;k++) x.push_back(c+100*k); t.c.push_back(x); }
	for(size_t k=0;k<g.bf.size();k++) if(r.p(0.3)) std::swap(g.bf[k].a,g.bf[k].b);
	std::string dir=scratch(); mkdir(dir.c_str(),0777); if(odd) { dir+="/v1.0.d"; mkdir(dir.c_str(),0777); } std::string nm=odd?"/a mesh.v2":"/m",fm=dir+nm+".msh",fs=dir+nm+".su2",fw=dir+"/w.msh"; std::vector<int> id(g.bf.size()),su; for(size_t k=0;k<id.size();k++) id[k]=k;
	rep.at(rep.cur+sf(" %s tags %d/%d%s%s",g.desc.c_str(),ntb,nte,vary?" varying":"",odd?" odd layout":""));
	writeMshV(r,g,t,fm,odd); writeSu2V(r,g,fs,odd,su); std::vector<int> bl; bool ok=true;
	{ Quiet q; MeshData a=readMesh(fm),b=readMesh(fs); ok&=checkData("files:gmsh",a,g,t,id,false); ok&=checkData("files:su2",b,g,t,su,true); if(!ok) return;
		Mesh ma(a),mb(b); ma.writeGmsh2(fw); ok&=checkMshText("files:gmsh",fw,g,t,id,false); MeshData a2=readMesh(fw); Tags tp=t; if(vary) for(auto*x:{&tp.b,&tp.c}) for(auto&y:*x) (void)y; 
		if(!vary) { Tags t2=t; MshFile w=parseMsh(fw); t2.b=w.bt; t2.c=w.ct; ok&=checkData("files:gmsh-again",a2,g,t2,id,false); } unlink(fw.c_str());
		mb.writeGmsh2(fw); ok&=checkMshText("files:su2-to-gmsh",fw,g,t,su,true); MeshData b2=readMesh(fw); GMesh gs=g; gs.bf.clear(); for(int k:su) gs.bf.push_back(g.bf[k]); MshFile w=parseMsh(fw); Tags t3; t3.b=w.bt; t3.c=w.ct; ok&=checkData("files:su2-to-gmsh-again",b2,gs,t3,id,false); unlink(fw.c_str()); }
	if(!ok) return; rep.count("meshes read, written and read again");
	// the meshes the solver works with
	for(bool s2:{false,true}) { LMesh L; { Quiet q; if(!L.build(g,G,s2?fs:fm)) return; } if(!checkTopo(s2?"files:su2-mesh":"files:gmsh-mesh",g,G,L,vary?1:ntb,s2,s2?1:maxb)) return; if(!vary) checkWritten(s2?"files:su2-mesh":"files:gmsh-mesh",g,*L.m,L.cell,ntb,nte,s2);
		std::string f3=dir+"/x.msh"; { Quiet q; L.m->writeGmsh2(f3); } LMesh L3; { Quiet q; if(!L3.build(g,G,f3)) return; } if(!checkTopo("files:rewritten-mesh",g,G,L3,1,false,std::max(2,s2?1:maxb))) return; for(int f=0;f<L3.m->gnbface();f++) if(L3.m->gbtags(f,0)!=G.f[L3.face[f]].tag) { rep.viol("files:rewritten-marker","boundary face %d",f); return; } unlink(f3.c_str()); rep.count("solver meshes compared"); }
	rep.eval(mix(hashs(rep.cur),hashd(g.p[0].data(),2*g.p.size()))); rep.sample(rep.cur);
	// the conversion tool
	if(!binDir().empty()&&r.p(0.25)) { std::string C=binDir()+"/convertformat"; bool s2=r.p(0.5),vtu=r.p(0.5); std::string in=s2?fs:fm,ou=dir+(vtu?"/o.vtu":"/o.msh"),log; int st=runProg({C,in,ou,vtu?"vtu":"msh"},20,&log); if(st!=0) { rep.viol("files:convert-status","%s -> %s: status %d; %s",in.c_str(),ou.c_str(),st,log.c_str()); return; }
		if(vtu) { MeshData d; { Quiet q; d=readMesh(in); } Mesh m(d); checkVtuMesh("files:convert",parseVtu(ou),m); } else checkMshText("files:convert",ou,g,t,s2?su:id,s2); unlink(ou.c_str()); rep.count("conversions"); rep.eval(mix(hashs(rep.cur),vtu*2+s2+5)); }
	if(!binDir().empty()&&r.p(0.15)) { std::string C=binDir()+"/convertformat"; std::vector<std::string> a; const char*w; switch(r.i(0,7)) { case 0: a={C}; w="no arguments"; break; case 1: a={C,fm}; w="one argument"; break; case 2: a={C,fm,dir+"/o.msh"}; w="two arguments"; break; case 3: { static const char*bad[]={"xyz","MSH","stl",""}; a={C,fm,dir+"/o.q",bad[r.i(0,3)]}; w="unknown format"; break; } case 4: a={C,dir+"/none.msh",dir+"/o.msh","msh"}; w="missing Gmsh input"; break; case 5: a={C,dir+"/none.su2",dir+"/o.vtu","vtu"}; w="missing SU2 input"; break; case 6: a={C,fm,dir+"/nodir/o.msh","msh"}; w="output in a missing directory (msh)"; break; default: a={C,fm,dir+"/nodir/o.vtu","vtu"}; w="output in a missing directory (vtu)"; }
		std::string log; int st=runProg(a,20,&log); if(st==0||st>=1000) rep.viol(std::string("files:convert-bad-use:")+(st==0?"success":st==2000?"hang":"signal"),"%s: status %d; %s",w,st,log.substr(0,300).c_str()); rep.count("bad uses of the conversion tool"); rep.eval(mix(hashs(w),r.i(0,3))); }
	unlink(fm.c_str()); unlink(fs.c_str()); }

// ---------------------------------------------------------------- output of solutions
static void mOut(Rng&r) {
	Case c; c.gm=genMesh(r,mopt(r)); c.setGeo(); static const std::vector<int> all={B_SLIP,B_FAR,B_INOUT,B_EXTRAP,B_ADIA,B_ISO}; rndConf(r,c,all,50,0.5); c.conf(); setState(r,c,r.lu(1e-3,0.4),r.p(0.15)?2:r.i(0,1)); c.desc=c.describe(); rep.at(rep.cur+" "+c.desc);
	Lib L; L.mesh(c); if(!L.ok) return; L.disc(c); L.set(c.u); const Mesh&m=*L.lm.m; int n=L.lm.cell.size(); IdealGasPhysics<freal> phy(c.pc.gamma,c.pc.Minf,c.pc.Tinf,c.pc.Reinf,c.pc.Pr); FlowOutput out(L.s,&phy,c.aoa); double S=0; for(auto&q:c.u) for(double x:q) S=std::max(S,std::fabs(x));
	// entropy error
	{ auto ent=[&](const double*q) { return rP(c.G,q)/std::pow(q[0],c.G.g); }; double si=ent(c.uinf),e=0,sc=0; for(size_t k=0;k<c.u.size();k++) { double d=(ent(c.u[k].data())-si)/si; e+=d*d*c.geo->area[k]; sc+=c.geo->area[k]; } double got; { Quiet q; got=out.compute_entropy_cell(L.u); } double ke=0; for(int i=0;i<1;i++) ke=c.uinf[3]/rP(c.G,c.uinf); for(auto&q:c.u) ke=std::max(ke,q[3]/rP(c.G,q.data())); if(!(std::fabs(got-std::sqrt(e))<=1e-11*ke*std::sqrt(sc)+1e-10*std::sqrt(e))) rep.viol("output:entropy","%.15g, should be %.15g",got,std::sqrt(e)); rep.count("entropy norms"); }
	rep.eval(mix(hashs(c.desc),hashd(c.u[0].data(),4*c.u.size()))); rep.sample(c.desc); if(mpiSize()>1) return;
	// own nodal averages
	// rounding of the areas, which are computed from absolute coordinates
	double ea=0; { double R=0; for(auto&q:c.gm.p) R=std::max(R,std::max(std::fabs(q[0]),std::fabs(q[1]))); for(size_t k=0;k<c.gm.el.size();k++) { double per=0; for(int f:c.geo->cf[k]) per+=c.geo->f[f].len; ea=std::max(ea,4*2.3e-16*R*std::max(R,per)/c.geo->area[k]); } }
	int np=m.gnpoin(); std::vector<std::array<double,4>> up(np,std::array<double,4>{{0,0,0,0}}); std::vector<double> as(np,0); for(int e=0;e<n;e++) for(int j=0;j<m.gnnode(e);j++) { int v=m.ginpoel(e,j); double a=c.geo->area[L.lm.cell[e]]; as[v]+=a; for(int i=0;i<4;i++) up[v][i]+=a*c.u[L.lm.cell[e]][i]; } for(int v=0;v<np;v++) for(int i=0;i<4;i++) up[v][i]/=as[v];
	amat::Array2d<freal> sc,ve; { Quiet q; if(out.postprocess_point(L.u,sc,ve)) rep.viol("output:point-status","error"); } std::vector<std::array<double,6>> pv(np); bool ok=sc.rows()==np&&sc.cols()==4&&ve.rows()==np&&ve.cols()==2; if(!ok) rep.viol("output:point-size","%d x %d scalars, %d x %d velocities",(int)sc.rows(),(int)sc.cols(),(int)ve.rows(),(int)ve.cols());
	static const char*const pn[]={"density","Mach number","pressure","temperature","x-velocity","y-velocity"};
	for(int v=0;v<np&&ok;v++) { const double*q=up[v].data(); double vm=std::hypot(q[1],q[2])/q[0],p=rP(c.G,q),cs=std::sqrt(c.G.g*p/q[0]); double ex[6]={q[0],vm/cs,p,p/q[0]*c.G.g*c.G.M*c.G.M,q[1]/q[0],q[2]/q[0]}; double kk=1+q[3]/p; double s6[6]={q[0],vm/cs*kk,q[3],ex[3]*kk,vm,vm}; for(int i=0;i<6;i++) { pv[v][i]=ex[i]; double got=i<4?sc(v,i):ve(v,i-4); if(!(std::fabs(got-ex[i])<=(1e-11+8*ea)*s6[i])) { rep.viol(std::string("output:point:")+pn[i],"point %d: %.15g, should be %.15g",v,got,ex[i]); ok=false; break; } } }
	rep.count("point fields",np);
	amat::Array2d<freal> sx,vx; { Quiet q; if(out.postprocess_cell(L.u,sx,vx)) rep.viol("output:cell-status","error"); } bool okc=sx.rows()==n&&sx.cols()>=3&&vx.rows()==n&&vx.cols()==2; if(!okc) rep.viol("output:cell-size","%d x %d",(int)sx.rows(),(int)sx.cols());
	for(int e=0;e<n&&okc;e++) { const double*q=c.u[L.lm.cell[e]].data(); double vm=std::hypot(q[1],q[2])/q[0],p=rP(c.G,q),cs=std::sqrt(c.G.g*p/q[0]),kk=1+q[3]/p; double ex[5]={q[0],vm/cs,p,q[1]/q[0],q[2]/q[0]},s5[5]={q[0],vm/cs*kk,q[3],vm,vm}; static const char*const cn[]={"density","Mach number","pressure","x-velocity","y-velocity"}; for(int i=0;i<5;i++) { double got=i<3?sx(e,i):vx(e,i-3); if(!(std::fabs(got-ex[i])<=1e-11*s5[i])) { rep.viol(std::string("output:cell:")+cn[i],"cell %d: %.15g, should be %.15g",e,got,ex[i]); okc=false; break; } } }
	rep.count("cell fields",n);
	if(!ok||!okc) return; std::string dir=scratch(); mkdir(dir.c_str(),0777);
	// grid files
	{ std::string f=dir+"/o.vtu"; std::string nm[]={"density","mach-number","pressure","temperature"}; bool scal=!r.p(0.1),vec=!r.p(0.1); amat::Array2d<freal> none; { Quiet q; writeScalarsVectorToVtu_PointData(f,m,scal?sc:none,nm,vec?ve:none,"velocity"); } Vtu v=parseVtu(f); checkVtuMesh("output:point-file",v,m); if(v.ok) { auto cmp=[&](const std::string&name,int col,int nc) { auto it=v.pd.find(name); if(it==v.pd.end()||(int)it->second.size()!=np*nc||v.comp[name]!=nc) { rep.viol("output:point-file-array","%s missing or of wrong size",name.c_str()); return; } for(int k=0;k<np;k++) for(int i=0;i<nc;i++) { double x=nc==1?sc(k,col):i<2?ve(k,i):0; if(!(std::fabs(it->second[nc*k+i]-x)<=1e-9*std::fabs(x))) { rep.viol("output:point-file-value","%s of point %d: %.12g for %.12g",name.c_str(),k,it->second[nc*k+i],x); return; } } }; if(scal) for(int i=0;i<4;i++) cmp(nm[i],i,1); if(vec) cmp("velocity",0,3); if((int)v.pd.size()!=(scal?4:0)+(vec?1:0)) rep.viol("output:point-file-array","%zu arrays",v.pd.size()); }
		{ Quiet q; writeScalarsVectorToVtu_CellData(f,m,scal?sx:none,nm,vec?vx:none,"velocity"); } v=parseVtu(f); checkVtuMesh("output:cell-file",v,m); if(v.ok) { auto cmp=[&](const std::string&name,int col,int nc) { auto it=v.cd.find(name); if(it==v.cd.end()||(int)it->second.size()!=n*nc||v.comp[name]!=nc) { rep.viol("output:cell-file-array","%s missing or of wrong size",name.c_str()); return; } for(int k=0;k<n;k++) for(int i=0;i<nc;i++) { double x=nc==1?sx(k,col):i<2?vx(k,i):0; if(!(std::fabs(it->second[nc*k+i]-x)<=1e-9*std::fabs(x))) { rep.viol("output:cell-file-value","%s of cell %d: %.12g for %.12g",name.c_str(),k,it->second[nc*k+i],x); return; } } }; if(scal) for(int i=0;i<3;i++) cmp(nm[i],i,1); if(vec) cmp("velocity",0,3); }
		{ Quiet q; writeMeshToVtu(f,m); } checkVtuMesh("output:mesh-file",parseVtu(f),m); unlink(f.c_str()); }
	// volume table
	{ MVector<freal> um(n,4); for(int e=0;e<n;e++) for(int i=0;i<4;i++) um(e,i)=c.u[L.lm.cell[e]][i]; { Quiet q; out.exportVolumeData(um,dir+"/v"); } checkVolume(dir+"/v-vol.out",c,L.lm); }
	// surface tables
	{ std::vector<int> tg=meshTags(c.gm),w,o; r.shuffle(tg); for(int t:tg) if(r.p(0.5)) w.push_back(t); else if(r.p(0.8)) o.push_back(t); if(r.p(0.2)&&w.size()) o.push_back(w[0]); { Quiet q; out.exportSurfaceData(L.u,w,o,dir+"/s"); } std::vector<GradBlock_t<freal,NDIM,4>> gr(n+m.gnConnFace()); L.s->getGradients(L.u,gr.data()); U4 gx(n),gy(n); for(int e=0;e<n;e++) for(int i=0;i<4;i++) { gx[L.lm.cell[e]][i]=gr[e](0,i); gy[L.lm.cell[e]][i]=gr[e](1,i); }
		for(int tag:w) checkWall(dir+"/s-surf_w"+std::to_string(tag)+".out",c,gx,gy,tag);
		for(int tag:o) checkOther(dir+"/s-surf_o"+std::to_string(tag)+".out",c,tag); }
	// scalar fields
	{ Vec us; createGhostedSystemVector(&m,1,&us); PetscScalar*a; VecGetArray(us,&a); std::vector<double> x(n); for(int e=0;e<n;e++) a[e]=x[e]=r.u(-2,2); VecRestoreArray(us,&a); amat::Array2d<freal> u1; { Quiet q; scalar_postprocess_point<1>(&m,us,u1); } if(u1.rows()!=np||u1.cols()!=1) rep.viol("output:scalar-size","%d x %d",(int)u1.rows(),(int)u1.cols()); else { std::vector<double> e(np,0); for(int k=0;k<n;k++) for(int j=0;j<m.gnnode(k);j++) e[m.ginpoel(k,j)]+=c.geo->area[L.lm.cell[k]]*x[k]; for(int v=0;v<np;v++) if(!(std::fabs(u1(v,0)-e[v]/as[v])<=1e-12*2+4*ea)) { rep.viol("output:scalar-point","point %d: %.15g, should be %.15g",v,u1(v,0),e[v]/as[v]); break; } } VecDestroy(&us); rep.count("scalar fields"); }
}
#include "ctrl.hpp"
int main(int argc,char**argv) { std::string m=argv[1]; Petsc P(argc,argv); mkdir(scratch().c_str(),0777);
	runCases([&](Rng&r,long k) { if(m=="io") mIo(r); else if(m=="out") mOut(r); else if(m=="ctrl") mCtrl(r); else if(m=="names") mNames(r,k); }); }
