// LLVM-IR text front end: lazily parses the whole-program .ll that rustc emits
// (fat LTO) into a compact register form that the symbolic executor walks.
#pragma once
#include <cstdint>
#include <cstring>
#include <string>
#include <string_view>
#include <vector>
#include <unordered_map>
#include <map>
#include <memory>
#include <mutex>
#include <stdexcept>
#include <functional>

typedef unsigned __int128 u128;
typedef __int128 i128;
typedef uint64_t u64;
typedef uint32_t u32;
typedef uint8_t u8;

struct Err : std::runtime_error { using std::runtime_error::runtime_error; };

inline u128 maskw(unsigned w) { return w >= 128 ? ~(u128)0 : (((u128)1 << w) - 1); }

// ---------------------------------------------------------------- types
struct Type {
    enum K { Void, Int, Ptr, Struct, Array, Vec, Float, Label, Meta, Func, Opaque } k;
    unsigned bits = 0;              // Int / Float
    u64 n = 0;                      // Array/Vec
    std::vector<Type*> el;          // Struct members, or single element
    std::vector<u64> off;           // Struct member offsets
    std::vector<unsigned> slotoff;  // first flattened slot per member
    bool packed = false;
    u64 size = 0, align = 1;        // alloc size
    unsigned slots = 0;             // flattened scalar slots
    bool scalar() const { return k == Int || k == Ptr || k == Float; }
    unsigned width() const { return k == Ptr ? 64 : bits; }
};

struct Leaf { u64 off; unsigned width; };  // one flattened scalar

struct Function;
struct Global;

// Constant scalar: either a number or undef
struct CVal { u128 c = 0; bool undef = false; };

enum class Op : u8 {
    Ret, Br, CondBr, Switch, Unreachable, Call, Alloca, Load, Store, AtomicRMW, CmpXchg, Fence,
    Gep, ICmp, Phi, Select, Extract, Insert, Trunc, ZExt, SExt, Copy, Freeze,
    Add, Sub, Mul, UDiv, SDiv, URem, SRem, Shl, LShr, AShr, And, Or, Xor, LandingPad, Resume, Unsupported, Nop
};

struct Opnd {
    bool isConst = false;
    unsigned slot = 0;              // register slot (first)
    unsigned n = 1;                 // slots
    std::vector<CVal> cv;           // constants when isConst
    Type* ty = nullptr;
};

struct Instr {
    Op op = Op::Nop;
    unsigned dst = 0, dstn = 0;
    unsigned w = 0;                 // width
    unsigned w2 = 0;                // source width for casts
    int pred = 0;                   // icmp predicate / rmw op
    std::vector<Opnd> o;
    Type* ty = nullptr;
    std::vector<Leaf> leaves;       // load/store leaves
    u64 imm = 0;                    // alloca size, extract slot offset, constant gep offset
    unsigned align = 1;
    std::vector<std::pair<unsigned, u64>> scaled; // gep: operand idx -> scale
    std::vector<std::pair<u128, unsigned>> cases; // switch
    unsigned b0 = 0, b1 = 0;        // targets
    u8 ord = 0, ord2 = 0;           // atomics: 1 relaxed, 2 acquire, 3 release, 4 both (ord2: a failing cmpxchg)
    Function* callee = nullptr;
    std::string text;
};

struct PhiMove { unsigned dst, n; Opnd src; };

struct Block {
    std::vector<Instr> ins;
    // phi moves per predecessor block id
    std::vector<std::pair<unsigned, std::vector<PhiMove>>> phis;
};

struct Function {
    std::string name;
    u32 id = 0;                     // object id of its address
    bool defined = false;
    size_t bodyBegin = 0, bodyEnd = 0; // offsets in file (header line start .. closing brace)
    std::once_flag once;
    bool parsed = false;
    std::vector<unsigned> params;   // slot of each param (flattened count in pn)
    std::vector<unsigned> pn;
    Type* ret = nullptr;
    unsigned nslots = 0;
    std::vector<Block> blocks;
    int intercept = 0;
    std::string what;
    unsigned ninstr = 0;
};

struct Global {
    std::string name;
    u32 id = 0;
    bool constant = false, external = false, tls = false;
    Type* ty = nullptr;
    size_t initPos = 0, initEnd = 0;
    std::string typeText;
    std::once_flag once;
    std::vector<u8> data;           // initial bytes
    std::vector<u8> st;             // 1 concrete, 0 undef
    u64 align = 1;
};

struct Module {
    std::string buf;
    std::vector<std::unique_ptr<Type>> types;
    std::map<std::string, Type*> tcache;
    std::unordered_map<std::string, Type*> named;
    std::unordered_map<std::string, Function*> fn;
    std::unordered_map<std::string, Global*> gl;
    std::unordered_map<std::string, std::string> alias;
    std::vector<Function*> fnById;
    std::vector<Global*> glById;
    u32 nextId = 16;
    std::recursive_mutex tmx;

    Type* mkInt(unsigned b);
    Type* mkPtr();
    Type* finish(Type* t);
    void load(const std::string& path);
    void parseFunction(Function* f);
    void ensure(Function* f) { std::call_once(f->once, [&] { parseFunction(f); f->parsed = true; }); }
    void ensure(Global* g);
    u64 addrOf(const std::string& name);
    void leavesOf(Type* t, u64 base, std::vector<Leaf>& out);
};
