// Calls on the library as data: what is called, with which tensors and parameters; the functional reference
// model of every operation; and the comparison of the two.
#pragma once
#include "api.h"
#include "mc.h"
#include "vf.h"
#include <cstring>
#include <string>
#include <vector>

typedef std::vector<int64_t> Dims;

enum Op { ADD, SUB, MUL, DIV, CAST, RESHAPE, SQUEEZE, DUP, SLICE, FULL, CREATE, MATMUL, DOT, SQRT, RELU, SIGMOID,
          TANH, SOFTMAX, POOL, CONV, CONV2D, CONV3D, BN, DROPOUT, NOPS };
extern const char* const op_name[NOPS];
extern const char* const dt_name[12];
extern const char* const st_name[9];

inline int dsize(int dt) { static const int s[12] = {1, 1, 2, 2, 4, 4, 8, 8, 4, 8, 4, 8}; return s[dt]; }
inline bool is_float(int dt) { return dt == TYPE_FLOAT || dt == TYPE_DOUBLE; }
inline bool is_signed(int dt) { return dt == 0 || dt == 2 || dt == 4 || dt == 6; }
DataType mkdt(int dt);                    // 10, 11: unknown codes
inline Device mkdev(int dev) { Device d; d.type = dev ? DEVICE_CUDA : DEVICE_CPU; d.id = dev == 2 ? 3 : 0; return d; }

int64_t prod(const Dims& d);

struct RT {               // a tensor value
  int dt = TYPE_FLOAT, dev = 0;
  Dims dims;
  std::vector<uint8_t> data;
  RT() {}
  RT(int dt_, const Dims& d, int dev_ = 0) : dt(dt_), dev(dev_), dims(d), data(prod(d) * dsize(dt_)) {}
  int64_t size() const { return prod(dims); }
  template <class T> T at(int64_t i) const { T v; memcpy(&v, data.data() + i * sizeof(T), sizeof(T)); return v; }
  template <class T> void put(int64_t i, T v) { memcpy(data.data() + i * sizeof(T), &v, sizeof(T)); }
  double num(int64_t i) const;            // as double (64-bit integers rounded)
  int64_t i64(int64_t i) const;           // integer types: the value, uint64 as its bit pattern
  void set_num(int64_t i, double v);      // C conversion
  void set_i64(int64_t i, int64_t v);     // integer types: truncated; floats: converted
};

enum Pat { P_INJ, P_SMALL, P_BIG, P_POS, P_NEG, P_FRAC, P_BITS };
void fill(RT& t, Pat p, int salt);

struct Case {
  Op op = ADD;
  std::vector<RT> in;
  Dims a64;                // reshape/full/create dims, squeeze axes
  int64_t n64 = 0;         // squeeze: num_axis; create: byte length of the supplied buffer, -1 none
  std::vector<int> p[4];   // slice begin/size/step; conv stride/padding/dilation; pool ksize/stride/padding/dilation
  int axis = 0, groups = 1, tdt = TYPE_FLOAT, dev = 0;
  double d = 0;            // fill value, epsilon, rate
  std::string mode;
  bool shared = false;     // equal inputs are one tensor, equal parameter arrays one array, dims equal to the input's are the input's own
};
std::string show(const RT& t, int maxel = 12);
std::string show(const Case& c);
std::string show(const Dims& d);

struct Expect {
  bool ok = true;
  unsigned allowed = 0;    // statuses a rejection may carry
  RT out;
  enum Cmp { EXACT, TOL, NODATA, MASKED, ALT } cmp = EXACT;   // MASKED: element is ref or zero; ALT: out or alt
  std::vector<double> val, tol;
  bool signs = false;       // with TOL: the sign of a zero counts
  RT alt;
};
inline unsigned B(int s) { return 1u << s; }
Expect ref_eval(const Case& c);

// The C arguments of a case, in exactly sized heap blocks.
struct Args {
  int64_t* a64 = nullptr; int* p[4] = {}; char* mode = nullptr; void* buf = nullptr;
  explicit Args(const Case& c);
  ~Args();
  bool intact(const Case& c, std::string* why) const;
  const Case* c_; bool fixed;
};
extern bool fixed_args;                         // every call's parameter arrays lie at the same addresses
void surroundings();
Status call(const Case& c, Args& a, Tensor* in, Tensor* out);

// ---- tensors of the library ----
Tensor make(const RT& t);                       // through aitisa_create; fails the execution if refused
void make_inputs(const Case& c, Tensor* in);
void unalias(Tensor* in, size_t n);             // forget repeated handles, before the tensors are destroyed
RT snap(const Tensor t);                        // value of a library tensor (CPU memory)
std::string differs(const RT& a, const RT& b);  // "" or what differs
std::string compare(const Expect& e, const Tensor out);
std::string compare_rt(const Expect& e, const RT& out);
std::string well_formed(const Tensor t);        // dense row-major layout, size, storage size
uint64_t hash_rt(const RT& t);
struct Ident { Tensor t; int64_t* dims; int64_t* lay; Storage st; void* data; int64_t size, offset, ndim; };
Ident ident(const Tensor t);
bool same(const Ident& a, const Ident& b);

// ---- enumeration ----
enum Level { TINY, SMALL, FULLL };
void gen(Op op, Level l, Case& c);              // consumes choices; may mc::skip()
const std::vector<Dims>& shapes_upto(int ndim, int dmax);   // all shapes of 0..ndim dimensions, lengths 1..dmax
const std::vector<Dims>& empties(int ndim);                 // all shapes of 1..ndim dimensions with lengths 0..2, one of them 0
const std::vector<Dims>& tall();                           // shapes of 9..300 (and 1000, 33000, 66000) dimensions, nearly all of length 1
const std::vector<Dims>& blocks();                         // 2 and 3 dimensions of 1..257, several of them past any tile size
const std::vector<int64_t>& lengths();          // 1-D lengths worth trying
const std::vector<int>& all_dt();
Case tiny_valid(Op op, int variant, bool* last); // fixed small catalogue of valid calls
const std::vector<Case>& catalogue(Op op);       // the same, as a list
