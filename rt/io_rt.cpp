// state of the in-memory io model
#include <iostream>
#include <vector>
std::vector<VxFile*>& vxio_files() { static std::vector<VxFile*>* v = new std::vector<VxFile*>; return *v; }
VxFile* vxio_find(const std::string& n) { for (auto f : vxio_files()) if (f->name == n) return f; return nullptr; }
static std::vector<double>* TK;
extern "C" {
uint64_t vx_int_(const char* n, int bits);
// digits >= 0: significant decimal digits of the printed value; digits < 0: that many decimals in fixed notation.
// 17 significant digits identify a double; fewer leave a rounding error of up to half a unit in the last place.
long vxio_token_new(double v, int digits) {
  if (!TK) TK = new std::vector<double>;
  if (digits < 17) {
    double e = vx_real("~rounding"), lim = 0.5; for (int i = 0; i < (digits < 0 ? -digits : digits - 1); ++i) lim /= 10;
    vx_assume_(e <= lim && e >= -lim);
    // one of the two cases fixes a value whose last bits need all 17 digits, so that the replay shows the loss
    if (vx_concretize(vx_int_("~hard", 1))) vx_assume_(v == 0.30000000000000004);
    if (digits < 0) v = v + e; else v = v + v * e; }
  TK->push_back(v); return TK->size() - 1; }
double vxio_token_value(long id) { return (*TK)[id]; }
}
