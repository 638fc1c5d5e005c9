#include "demo_host.hpp"
using namespace demo;
int main(int c, char** v) {
  Session s(c, v); Opt o; World w(o); auto i = run(w);
  if (!w.rank) printf("F %.12g S %g it %d conv %d evals %d ortho %g nel %g\n", i.F, i.S, i.iter, i.converged, w.evals, w.hist.back().ortho, w.hist.back().nel);
  return verdict(i.converged, "not converged");
}
