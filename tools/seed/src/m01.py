P='C21'
FILES=[('src/mesh/mesh.cpp','if(fabs(ci-cj) <= 1e-8)','if(fabs(ci-cj) <= 1e-3)')]
NEEDS='a periodic side whose faces are less than a thousandth of a unit apart, with the faces in an order in which a near neighbour across comes first'
BREAKS='periodic faces are paired with the face next to the one straight across'
DEMO=r'''
#include "demo.hpp"
int main(int argc,char**argv) { Env env(argc,argv); std::string W=argv[1];
	for(double s: {1.0,0.0008}) { Pm m=rect(4,5,false,[s](double x,double y) { return std::array<double,2>{{s*x,s*y}}; }); for(auto&b:m.bf) b[2]=b[2]; std::sort(m.bf.begin(),m.bf.end(),[](const std::array<int,3>&a,const std::array<int,3>&b) { return a[2]<b[2]; }); for(auto&b:m.bf) if(b[2]==2||b[2]==4) b[2]=7; Mesh g=load(m,W); g.compute_periodic_map(7,0); int n=0;
		for(int f=0;f<g.gnbface();f++) if(g.gbtags(f,0)==7) { n++; int o=g.gintfac(f,1); CHECK(o>=0&&o<g.gnelem(),"face %d not paired",f); double y1=0,y2=0; for(int k=0;k<4;k++) { y1+=g.gcoords(g.ginpoel(g.gintfac(f,0),k),1)/4; y2+=g.gcoords(g.ginpoel(o,k),1)/4; } CHECK(std::fabs(y1-y2)<0.01*s,"face %d: cell at height %g paired with %g",f,y1,y2); } CHECK(n==10,"%d periodic faces",n); }
	return 0; }
'''
