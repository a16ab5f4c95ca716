// What a library mesh holds, compared with the generator's mesh: connectivity, written files.
#ifndef VF_MIO_H
#define VF_MIO_H
#include <iostream>
#include <fstream>
#include <sstream>
#include "fv.hpp"
using namespace vf;
typedef UMesh<freal,2> Mesh;
typedef std::pair<double,double> DP;
static DP pt(const GMesh&g,int v) { return DP(g.p[v][0],g.p[v][1]); }
static DP pt(const Mesh&m,int v) { return DP(m.gcoords(v,0),m.gcoords(v,1)); }
struct Quiet { std::streambuf*b; std::ostringstream s; Quiet() { b=std::cout.rdbuf(s.rdbuf()); } ~Quiet() { std::cout.rdbuf(b); } };
static std::string meshFileT(const GMesh&g,bool su2,int ntb,int nte) { std::string f=scratch()+(su2?"/m.su2":"/m.msh"); MPI_Barrier(MPI_COMM_WORLD); if(mpiRank()==0) { if(su2) writeSu2(g,f); else writeMsh(g,f,ntb,nte); } MPI_Barrier(MPI_COMM_WORLD); return f; }

// ------------------------------------------------------------------ what a mesh holds, read back from its own Gmsh output (regions have no accessor)
struct MshFile { std::vector<std::array<double,3>> p; std::vector<std::vector<int>> bt,bn,ct,cn; bool ok=true; std::string why; };
static MshFile parseMsh(const std::string&f) { MshFile m; std::ifstream i(f); std::string w; auto need=[&](const char*x) { if(!(i>>w)||w!=x) { if(m.ok) m.why=sf("expected %s, found '%s'",x,w.c_str()); m.ok=false; } };
	need("$MeshFormat"); double ver=0; int a,b; if(!(i>>ver>>a>>b)||ver!=2.2||a!=0) { m.ok=false; m.why="bad format line"; } need("$EndMeshFormat"); need("$Nodes"); long n=0; if(!(i>>n)||n<0||n>1000000) { m.ok=false; m.why="node count"; return m; } m.p.resize(n);
	for(long k=0;k<n;k++) { long id; if(!(i>>id>>m.p[k][0]>>m.p[k][1]>>m.p[k][2])||id!=k+1) { m.ok=false; m.why=sf("node line %ld",k); return m; } } need("$EndNodes"); need("$Elements"); if(!(i>>n)||n<0||n>1000000) { m.ok=false; m.why="element count"; return m; }
	for(long k=0;k<n;k++) { long id; int t,nt; if(!(i>>id>>t>>nt)||id!=k+1||nt<0||nt>20) { m.ok=false; m.why=sf("element line %ld",k); return m; } std::vector<int> tg(nt); for(int&x:tg) i>>x; int nn=t==1?2:t==2?3:t==3?4:0; if(!nn) { m.ok=false; m.why=sf("element type %d",t); return m; } std::vector<int> nd(nn); for(int&x:nd) { i>>x; x--; if(x<0||x>=(int)m.p.size()) { m.ok=false; m.why="node index"; return m; } } if(!i) { m.ok=false; m.why="element line"; return m; } if(t==1) { if(m.cn.size()) { m.ok=false; m.why="boundary element after a cell"; } m.bt.push_back(tg); m.bn.push_back(nd); } else { m.ct.push_back(tg); m.cn.push_back(nd); } } need("$EndElements"); return m; }
// regions of all local cells; the written mesh must also repeat the local mesh exactly
static void checkWritten(const char*key,const GMesh&gm,const Mesh&m,const std::vector<int>&cell,int ntb,int nte,bool su2) {
	std::string f=scratch()+sf("/w%d.msh",mpiRank()); { Quiet q; m.writeGmsh2(f); } MshFile w=parseMsh(f); unlink(f.c_str());
	if(!w.ok) { rep.viol(std::string(key)+":written-file","%s",w.why.c_str()); return; }
	if((int)w.p.size()!=m.gnpoin()||(int)w.cn.size()!=m.gnelem()||(int)w.bn.size()!=m.gnbface()) { rep.viol(std::string(key)+":written-counts","%zu points %zu cells %zu boundary faces for %d %d %d",w.p.size(),w.cn.size(),w.bn.size(),m.gnpoin(),m.gnelem(),m.gnbface()); return; }
	for(int v=0;v<m.gnpoin();v++) if(w.p[v][0]!=m.gcoords(v,0)||w.p[v][1]!=m.gcoords(v,1)||w.p[v][2]!=0) { rep.viol(std::string(key)+":written-coords","point %d",v); return; }
	for(int e=0;e<m.gnelem();e++) { int g=cell[e]; if(w.cn[e].size()!=gm.el[g].size()) { rep.viol(std::string(key)+":written-cell","cell %d has %zu nodes",e,w.cn[e].size()); return; } for(size_t j=0;j<w.cn[e].size();j++) if(w.cn[e][j]!=m.ginpoel(e,j)) { rep.viol(std::string(key)+":written-cell","cell %d node %zu",e,j); return; }
		if(!su2) { int nt=w.ct[e].size(); if(nt<2||nt<nte) { rep.viol(std::string(key)+":written-tags","cell %d has %d tags of %d",e,nt,nte); return; } for(int t=0;t<nte;t++) if(w.ct[e][t]!=gm.reg[g]+100*t) { rep.viol(std::string(key)+":region","cell %d (file cell %d): tag %d is %d, in the file %d",e,g,t,w.ct[e][t],gm.reg[g]+100*t); return; } } }
	for(int b=0;b<m.gnbface();b++) { if(w.bn[b].size()!=2||w.bn[b][0]!=m.gbface(b,0)||w.bn[b][1]!=m.gbface(b,1)) { rep.viol(std::string(key)+":written-bface","boundary face %d",b); return; } for(int t=0;t<(su2?1:ntb);t++) if((int)w.bt[b].size()<=t||w.bt[b][t]!=m.gbface(b,2+t)) { rep.viol(std::string(key)+":written-marker","boundary face %d tag %d",b,t); return; } }
	rep.count("written meshes compared"); }

// ------------------------------------------------------------------ connectivity
static bool checkTopo(const char*K,const GMesh&gm,const Geo&G,const LMesh&L,int ntb,bool su2,int ncount=-1) {
	const Mesh&m=*L.m; int ne=m.gnelem(),nf=m.gnaface(),np=m.gnpoin(); bool ok=true; auto V=[&](const std::string&k,const std::string&msg) { if(ok) rep.viol(std::string(K)+":"+k,"%s",msg.c_str()); ok=false; };
	// cells
	std::vector<int> loc(gm.el.size(),-1); int mx=0; for(auto&e:gm.el) mx=std::max(mx,(int)e.size());
	for(int e=0;e<ne;e++) { int g=L.cell[e]; if(g<0) return false; if(loc[g]>=0) { V("cell-twice",sf("file cell %d is local cell %d and %d",g,loc[g],e)); return false; } loc[g]=e; int n=gm.el[g].size(); if(m.gnnode(e)!=n||m.gnfael(e)!=n) { V("cell-size",sf("cell %d: %d nodes, %d faces, file has %d",e,m.gnnode(e),m.gnfael(e),n)); return false; }
		int k0=-1; for(int j=0;j<n;j++) if(pt(gm,gm.el[g][j])==pt(m,m.ginpoel(e,0))) k0=j; for(int j=0;j<n;j++) { int v=m.ginpoel(e,j); if(v<0||v>=np) { V("node-index",sf("cell %d node %d",e,v)); return false; } if(k0<0||pt(gm,gm.el[g][(k0+j)%n])!=pt(m,v)) V("cell-nodes",sf("cell %d does not go around the points of file cell %d in its order",e,g)); } }
	if(mpiSize()==1&&ne!=(int)gm.el.size()) V("cell-count",sf("%d cells, file has %zu",ne,gm.el.size()));
	if(m.gmaxnfael()<mx||m.gmaxnfael()>4) V("maxnfael",sf("%d, should be %d",(int)m.gmaxnfael(),mx));
	if(m.gnelemglobal()!=(int)gm.el.size()||m.gnpoinglobal()!=(int)gm.p.size()) V("global-counts",sf("%d cells %d points",(int)m.gnelemglobal(),(int)m.gnpoinglobal()));
	// points: exactly those of the local cells, each once
	std::set<DP> used; for(int e=0;e<ne;e++) for(int v:gm.el[L.cell[e]]) used.insert(pt(gm,v)); std::set<DP> have; for(int v=0;v<np;v++) have.insert(pt(m,v)); if((int)have.size()!=np||have!=used) V("points",sf("%d points (%zu different) for cells using %zu",np,have.size(),used.size()));
	// faces
	std::vector<int> lf(G.f.size(),-1); int nb=0,nc=0,ni=0; for(size_t f=0;f<G.f.size();f++) { bool l=loc[G.f[f].L]>=0,r=G.f[f].R>=0&&loc[G.f[f].R]>=0; if(G.f[f].R<0) nb+=l; else if(l&&r) ni++; else if(l||r) nc++; }
	if(m.gnbface()!=nb||m.gninface()!=ni||m.gnConnFace()!=nc||nf!=nb+ni+nc) { V("face-counts",sf("boundary %d interior %d connectivity %d all %d; the mesh has %d %d %d",(int)m.gnbface(),(int)m.gninface(),(int)m.gnConnFace(),nf,nb,ni,nc)); return false; }
	int ps=m.gPhyBFaceStart(),pe=m.gPhyBFaceEnd(),cs=m.gConnBFaceStart(),ce=m.gConnBFaceEnd(),ss=m.gSubDomFaceStart(),se=m.gSubDomFaceEnd(),ds=m.gDomFaceStart(),de=m.gDomFaceEnd();
	if(ps!=0||pe!=nb||m.gFaceStart()!=0||m.gFaceEnd()!=nf||ce-cs!=nc||se-ss!=ni||ds!=nb||de!=nf||std::min(cs,ss)!=nb||(cs<ss?(ce!=ss||se!=nf):(se!=cs||ce!=nf))) { V("face-ranges",sf("boundary [%d,%d) connectivity [%d,%d) interior [%d,%d) domain [%d,%d) of %d",ps,pe,cs,ce,ss,se,ds,de,nf)); return false; }
	for(int f=0;f<nf;f++) { int g=L.face[f]; if(g<0) return false; if(lf[g]>=0) { V("face-twice",sf("faces %d and %d are the same",lf[g],f)); return false; } lf[g]=f; const Geo::F&F=G.f[g]; int l=m.gintfac(f,0),r=m.gintfac(f,1); bool phys=f<pe,conn=f>=cs&&f<ce; if(m.gnnofa(f)!=2) V("nnofa","");
		int gl=F.R<0?F.L: loc[F.L]<0?F.R: loc[F.R]<0?F.L: -1; // the only local cell
		if(phys) { if(F.R>=0||l!=loc[F.L]||r!=ne+nc+(f-ps)) V("boundary-face-cells",sf("face %d: cells %d %d, expected %d and ghost %d",f,l,r,loc[F.L],ne+nc+f-ps)); } else if(conn) { if(F.R<0||gl<0||l!=loc[gl]||r!=ne+(f-cs)) V("connectivity-face-cells",sf("face %d: cells %d %d",f,l,r)); } else { if(F.R<0||gl>=0||std::min(loc[F.L],loc[F.R])!=l||std::max(loc[F.L],loc[F.R])!=r) V("interior-face-cells",sf("face %d: cells %d %d, expected %d %d, smaller first",f,l,r,loc[F.L],F.R<0?-1:loc[F.R])); }
		if(!ok) return false;
		// directed as in the left cell
		bool dir=false; for(int j=0;j<m.gnnode(l);j++) if(m.ginpoel(l,j)==m.gintfac(f,2)&&m.ginpoel(l,(j+1)%m.gnnode(l))==m.gintfac(f,3)) dir=true; if(!dir) V("face-direction",sf("face %d does not have its left cell on its left",f));
		if(phys) { int b=f-ps; if(m.gbface(b,0)!=m.gintfac(f,2)||m.gbface(b,1)!=m.gintfac(f,3)) V("bface-direction",sf("boundary face %d is stored as (%d,%d), in the face list (%d,%d)",b,(int)m.gbface(b,0),(int)m.gbface(b,1),(int)m.gintfac(f,2),(int)m.gintfac(f,3))); int nt=su2?1:ntb; if(m.gnbtag()!=(ncount<0?nt:ncount)&&!(su2&&m.gnbtag()>=1)) V("tag-count",sf("%d, file has %d",m.gnbtag(),nt)); for(int t=0;t<nt;t++) if(m.gbtags(f,t)!=F.tag+1000*t||m.gbface(b,2+t)!=F.tag+1000*t) V("marker",sf("boundary face %d tag %d: %d and %d, file has %d",b,t,m.gbtags(f,t),(int)m.gbface(b,2+t),F.tag+1000*t)); }
		for(int s=0;s<2;s++) { int e=s?r:l; if(e>=ne) continue; int w=-1; for(int j=0;j<m.gnnode(e);j++) { std::set<int> a={(int)m.ginpoel(e,j),(int)m.ginpoel(e,(j+1)%m.gnnode(e))},b={(int)m.gintfac(f,2),(int)m.gintfac(f,3)}; if(a==b) w=j; } int got=m.getFaceEIndex(false,f,e); if(got!=w) V("face-EIndex",sf("face %d in cell %d: %d, expected %d",f,e,got,w)); if(phys&&m.getFaceEIndex(true,f-ps,e)!=w) V("bface-EIndex",sf("boundary face %d in cell %d",f,e)); if(w<0) continue; if(m.gelemface(e,w)!=f) V("elemface",sf("cell %d side %d: face %d, expected %d",e,w,(int)m.gelemface(e,w),f)); if(m.gesuel(e,w)!=(s?l:r)) V("esuel",sf("cell %d side %d: neighbour %d, expected %d",e,w,(int)m.gesuel(e,w),s?l:r)); for(int k=0;k<2;k++) if(m.getNodeEIndex(e,w,k)!=(w+k)%m.gnnode(e)) V("node-EIndex",""); }
		int o=0; for(int e=0;e<(ne<60?ne:0);e++) if(e!=l&&e!=r) { o=m.getFaceEIndex(false,f,e); if(o>=0) { V("face-EIndex-foreign",sf("face %d reported as side %d of cell %d",f,o,e)); break; } }
		if(!ok) return false; }
	// point to cell lists
	std::vector<std::multiset<int>> pc(np); for(int e=0;e<ne;e++) for(int j=0;j<m.gnnode(e);j++) pc[m.ginpoel(e,j)].insert(e);
	for(int v=0;v<np;v++) { if(m.gesup_p(v)>m.gesup_p(v+1)||(v==0&&m.gesup_p(0)!=0)) { V("esup-range",sf("point %d",v)); break; } std::multiset<int> s; for(int k=m.gesup_p(v);k<m.gesup_p(v+1);k++) s.insert(m.gesup(k)); if(s!=pc[v]) { V("esup",sf("point %d: %zu cells listed, %zu contain it",v,s.size(),pc[v].size())); break; } }
	// Euler's formula on the whole mesh
	if(mpiSize()==1) { std::vector<int> par(gm.p.size()); for(size_t k=0;k<par.size();k++) par[k]=k; std::function<int(int)> fd=[&](int x) { while(par[x]!=x) x=par[x]=par[par[x]]; return x; }; std::set<int> bp; for(auto&b:gm.bf) { par[fd(b.a)]=fd(b.b); bp.insert(b.a); bp.insert(b.b); } std::set<int> lp; for(int v:bp) lp.insert(fd(v)); int chi=np-nf+ne; if(chi!=2-(int)lp.size()) V("euler",sf("%d points - %d faces + %d cells = %d with %zu boundary loops",np,nf,ne,chi,lp.size())); int sides=0; for(int e=0;e<ne;e++) sides+=m.gnfael(e); if(sides!=2*ni+nb) V("side-count",""); }
	return ok; }

#endif
