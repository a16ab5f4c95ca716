P='C20'
FILES=[('src/mesh/ameshutils.cpp','			if(othercell < m.gnelem())\n				marked[othercell] = true;','			if(othercell < m.gnelem() && othercell-icell < 500)\n				marked[othercell] = true;')]
NEEDS='a mesh in which neighbouring cells are numbered 500 or more apart'
BREAKS='neighbouring cells end up in the same level of the schedule'
DEMO=r'''
#include "demo.hpp"
int main(int argc,char**argv) { Env env(argc,argv); std::string W=argv[1]; for(int nx: {3,40,60}) { Pm pm=rect(nx,40,false); { std::vector<std::vector<int>> a,b; for(int k=0;k<(int)pm.el.size();k++) ((k/nx+k%nx)%2?b:a).push_back(pm.el[k]); a.insert(a.end(),b.begin(),b.end()); pm.el=a; } Mesh g=load(pm,W); std::vector<fint> l=levelSchedule<freal>(g); CHECK(l.size()>1&&l[0]==0&&l.back()==g.gnelem(),"levels do not cover the cells"); for(size_t k=0;k+1<l.size();k++) for(int e=l[k];e<l[k+1];e++) for(int j=0;j<g.gnfael(e);j++) { int o=g.gesuel(e,j); if(o<g.gnelem()) CHECK(o<l[k]||o>=l[k+1],"%d columns: cells %d and %d are neighbours in level %zu",nx,e,o,k); } }
	return 0; }
'''
