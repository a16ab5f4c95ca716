P='C21'
FILES=[('src/mesh/mesh.cpp','if(fabs(ci-cj) <= 1e-8)','if(fabs(ci-cj) <= 1e-8*fabs(ci))')]
NEEDS='a periodic pair whose faces lie at the transverse coordinate zero, with coordinates that agree to rounding only'
BREAKS='that pair of faces is not joined'
DEMO=r'''
#include "demo.hpp"
int main(int argc,char**argv) { Env env(argc,argv); std::string W=argv[1]; for(int ny: {4,5}) for(int k=0;k<3;k++) { double s=k==0?0:k==1?3e-14:1e-11; Rnd r(ny+k); Pm pm=rect(6,ny,false,[&](double x,double y) { return std::array<double,2>{{2*x,y-0.5+(x>0.99?s*r(-1,1):0)}}; }); for(auto&b:pm.bf) if(b[2]==2||b[2]==4) b[2]=9; Mesh g=load(pm,W); g.compute_periodic_map(9,0); int n=0;
	for(int f=g.gPhyBFaceStart();f<g.gPhyBFaceEnd();f++) if(g.gbtags(f-g.gPhyBFaceStart(),0)==9) { int o=g.gintfac(f,1); CHECK(o>=0&&o<g.gnelem(),"face %d is not joined to a face across (ghost %d)",f,o); double y0=0,y1=0; int e=g.gintfac(f,0); for(int j=0;j<4;j++) { y0+=g.gcoords(g.ginpoel(e,j),1)/4; y1+=g.gcoords(g.ginpoel(o,j),1)/4; } CHECK(std::fabs(y0-y1)<1e-6&&e!=o,"face %d is joined to the wrong cell",f); n++; } CHECK(n==2*ny,"%d periodic faces",n); }
	return 0; }
'''
