#include "ir.hpp"
#include <fstream>
#include <sstream>
#include <algorithm>

Type* Module::mkInt(unsigned b) {
    std::lock_guard<std::recursive_mutex> l(tmx);
    auto& t = tcache["i" + std::to_string(b)];
    if (!t) { auto n = std::make_unique<Type>(); n->k = Type::Int; n->bits = b; n->slots = 1;
        u64 by = (b + 7) / 8; u64 a = 1; while (a < by && a < 16) a *= 2; n->align = a; n->size = (by + a - 1) / a * a; t = n.get(); types.push_back(std::move(n)); }
    return t;
}
Type* Module::mkPtr() {
    std::lock_guard<std::recursive_mutex> l(tmx);
    auto& t = tcache["ptr"];
    if (!t) { auto n = std::make_unique<Type>(); n->k = Type::Ptr; n->bits = 64; n->slots = 1; n->size = 8; n->align = 8; t = n.get(); types.push_back(std::move(n)); }
    return t;
}
void Module::leavesOf(Type* t, u64 base, std::vector<Leaf>& out) {
    switch (t->k) {
    case Type::Int: case Type::Ptr: case Type::Float: out.push_back({base, t->width()}); break;
    case Type::Struct: for (size_t i = 0; i < t->el.size(); i++) leavesOf(t->el[i], base + t->off[i], out); break;
    case Type::Array: case Type::Vec: for (u64 i = 0; i < t->n; i++) leavesOf(t->el[0], base + i * t->el[0]->size, out); break;
    default: break;
    }
}
Type* Module::finish(Type* t) {
    if (t->k == Type::Struct) {
        u64 o = 0, al = 1; unsigned s = 0;
        for (auto* e : t->el) {
            u64 a = t->packed ? 1 : e->align; al = std::max(al, a);
            o = (o + a - 1) / a * a; t->off.push_back(o); o += e->size; t->slotoff.push_back(s); s += e->slots;
        }
        t->align = al; t->size = (o + al - 1) / al * al; t->slots = s;
    } else if (t->k == Type::Array || t->k == Type::Vec) {
        t->size = t->n * t->el[0]->size; t->align = t->el[0]->align;
        t->slots = t->n <= 64 ? t->n * t->el[0]->slots : 0;   // big arrays never live in registers
        for (u64 i = 0; i < t->n && i <= 64; i++) t->slotoff.push_back(i * t->el[0]->slots);
    }
    return t;
}

// ---------------------------------------------------------------- lexer
struct Lx {
    Module& m; const char* p; const char* e;
    Lx(Module& m, const char* a, const char* b) : m(m), p(a), e(b) {}
    void ws() { while (p < e && (*p == ' ' || *p == '\t')) p++; }
    bool eol() { ws(); return p >= e || *p == '\n' || *p == ';'; }
    char peek() { ws(); return p < e ? *p : 0; }
    bool eat(char c) { ws(); if (p < e && *p == c) { p++; return true; } return false; }
    void need(char c) { if (!eat(c)) throw Err(std::string("expected '") + c + "' near: " + std::string(p, std::min<size_t>(60, e - p))); }
    static bool idc(char c) { return isalnum((unsigned char)c) || c == '_' || c == '.' || c == '$' || c == '-'; }
    std::string word() { ws(); const char* s = p; while (p < e && idc(*p)) p++; return std::string(s, p); }
    std::string peekWord() { const char* s = p; auto w = word(); p = s; return w; }
    bool eatWord(const char* w) { ws(); size_t n = strlen(w); if ((size_t)(e - p) >= n && !strncmp(p, w, n) && (p + n == e || !idc(p[n]))) { p += n; return true; } return false; }
    std::string ident() { // after % or @
        if (p < e && *p == '"') { const char* s = ++p; while (p < e && *p != '"') p++; std::string r(s, p); p++; return r; }
        const char* s = p; while (p < e && idc(*p)) p++; return std::string(s, p);
    }
    void skipParens() { ws(); if (peek() != '(') return; int d = 0; bool q = false; for (; p < e; p++) { if (*p == '"') q = !q; if (q) continue; if (*p == '(') d++; if (*p == ')' && --d == 0) { p++; return; } } }
    bool typeStart() {
        ws(); if (p >= e) return false; char c = *p;
        if (c == '{' || c == '[' || c == '<' || c == '%') return true;
        if (c == 'i' && p + 1 < e && isdigit((unsigned char)p[1])) return true;
        auto w = peekWord();
        return w == "ptr" || w == "void" || w == "double" || w == "float" || w == "half" || w == "label" || w == "metadata" || w == "fp128" || w == "bfloat" || w == "x86_fp80";
    }
    void skipAttrs() { // parameter / return attributes and calling-convention words up to a type
        while (!typeStart()) {
            ws();
            if (p < e && *p == '#') { p++; word(); continue; }
            if (p < e && *p == '"') { p++; while (p < e && *p != '"') p++; p++; if (p < e && *p == '=') { p++; if (*p == '"') { p++; while (p < e && *p != '"') p++; p++; } } continue; }
            auto w = word();
            if (w.empty()) throw Err("attr parse near: " + std::string(p, std::min<size_t>(80, e - p)));
            if (p < e && *p == '(') skipParens();
            else if (w == "align" || w == "cc" || w == "addrspace") { word(); }
        }
    }
    void skipValAttrs() { // attributes between type and value
        for (;;) {
            ws(); if (p >= e) return; char c = *p;
            if (c == '%' || c == '@' || c == '{' || c == '[' || c == '<' || c == '-' || isdigit((unsigned char)c) || c == '!') return;
            if (c == '"') { p++; while (p < e && *p != '"') p++; p++; continue; }
            const char* s = p; auto w = word();
            static const char* vals[] = {"true", "false", "null", "undef", "poison", "zeroinitializer", "getelementptr", "ptrtoint", "inttoptr", "c", "sub", "add", "none", "splat", "trunc", "xor", "asm", "blockaddress", "bitcast", "select", "icmp", "dso_local_equivalent", "no_cfi"};
            for (auto v : vals) if (w == v) { p = s; return; }
            if (w.empty()) return;
            if (p < e && *p == '(') skipParens(); else if (w == "align") word();
        }
    }
    Type* type() {
        ws(); std::lock_guard<std::recursive_mutex> l(m.tmx);
        char c = *p;
        Type* t = nullptr;
        if (c == '{' || (c == '<' && p + 1 < e && p[1] == '{')) {
            bool pk = c == '<'; const char* s = p; if (pk) p++; p++;
            auto n = std::make_unique<Type>(); n->k = Type::Struct; n->packed = pk;
            if (!eat('}')) { do n->el.push_back(type()); while (eat(',')); need('}'); }
            if (pk) need('>');
            std::string key(s, p);
            auto it = m.tcache.find(key); if (it != m.tcache.end()) t = it->second;
            else { t = m.finish(n.get()); m.tcache[key] = t; m.types.push_back(std::move(n)); }
        } else if (c == '[' || c == '<') {
            const char* s = p; p++; u64 cnt = std::stoull(word()); if (!eatWord("x")) throw Err("array type");
            Type* el = type(); need(c == '[' ? ']' : '>');
            std::string key(s, p);
            auto it = m.tcache.find(key); if (it != m.tcache.end()) t = it->second;
            else { auto n = std::make_unique<Type>(); n->k = c == '[' ? Type::Array : Type::Vec; n->n = cnt; n->el.push_back(el); t = m.finish(n.get()); m.tcache[key] = t; m.types.push_back(std::move(n)); }
        } else if (c == '%') {
            p++; auto nm = ident(); auto it = m.named.find(nm); if (it == m.named.end()) throw Err("named type " + nm); t = it->second;
        } else {
            auto w = word();
            if (w == "ptr") { t = m.mkPtr(); if (eatWord("addrspace")) skipParens(); }
            else if (w.size() > 1 && w[0] == 'i' && isdigit((unsigned char)w[1])) t = m.mkInt(std::stoul(w.substr(1)));
            else {
                auto& q = m.tcache[w];
                if (!q) { auto n = std::make_unique<Type>(); n->k = w == "void" ? Type::Void : w == "label" ? Type::Label : w == "metadata" ? Type::Meta : Type::Float;
                    if (n->k == Type::Float) { n->bits = w == "float" ? 32 : w == "half" || w == "bfloat" ? 16 : w == "double" ? 64 : 128; n->size = n->bits / 8; n->align = n->size; n->slots = 1; }
                    q = n.get(); m.types.push_back(std::move(n)); }
                t = q;
            }
        }
        return t;
    }
    u128 number() {
        ws(); bool neg = eat('-'); u128 v = 0; const char* s = p;
        while (p < e && isdigit((unsigned char)*p)) v = v * 10 + (*p++ - '0');
        if (s == p) throw Err("number near: " + std::string(p, std::min<size_t>(60, e - p)));
        return neg ? (u128)0 - v : v;
    }
    u64 constGep() { // after 'getelementptr'
        while (peek() != '(') word();
        need('('); 
        Type* t = type(); need(','); Type* pt = type(); (void)pt;
        std::vector<CVal> b; constant(m.mkPtr(), b); u64 a = b[0].c; bool first = true; Type* cur = t;
        while (eat(',')) { if (eatWord("inrange")) skipParens(); Type* it = type(); std::vector<CVal> iv; constant(it, iv); unsigned w = it->width(); int64_t ix = (int64_t)((i128)(iv[0].c << (128 - w)) >> (128 - w));
            if (first) { a += ix * (int64_t)cur->size; first = false; }
            else if (cur->k == Type::Struct) { a += cur->off[ix]; cur = cur->el[ix]; }
            else { cur = cur->el[0]; a += ix * (int64_t)cur->size; } }
        need(')'); return a;
    }
    void zero(Type* t, std::vector<CVal>& out, bool undef) { std::vector<Leaf> lv; m.leavesOf(t, 0, lv); for (size_t i = 0; i < lv.size(); i++) out.push_back({0, undef}); }
    // parse constant of type t, flatten to scalar leaves
    void constant(Type* t, std::vector<CVal>& out) {
        ws(); char c = *p;
        if (c == '@') { p++; out.push_back({m.addrOf(ident()), false}); return; }
        if (c == '-' || isdigit((unsigned char)c)) { if (t->k == Type::Float) { word(); out.push_back({0, false}); return; } u128 v = number(); out.push_back({v & maskw(t->width()), false}); return; }
        if (c == '{' || c == '[' || c == '<') {
            bool ps = c == '<' && p + 1 < e && p[1] == '{'; p++; if (ps) p++;
            char cl = c == '{' ? '}' : c == '[' ? ']' : ps ? '}' : '>';
            if (!eat(cl)) { do { Type* et = type(); constant(et, out); } while (eat(',')); need(cl); }
            if (ps) need('>');
            return;
        }
        if (c == 'c' && p + 1 < e && p[1] == '"') {
            p += 2; while (*p != '"') { if (*p == '\\') { auto hx = [](char x) { return x <= '9' ? x - '0' : (x | 32) - 'a' + 10; }; if (p[1] == '\\') { out.push_back({'\\', false}); p += 2; } else { out.push_back({(u128)(hx(p[1]) * 16 + hx(p[2])), false}); p += 3; } } else out.push_back({(u128)(u8)*p++, false}); }
            p++; return;
        }
        auto w = word();
        if (w == "true") { out.push_back({1, false}); return; }
        if (w == "false" || w == "null" || w == "none") { out.push_back({0, false}); return; }
        if (w == "undef" || w == "poison") { zero(t, out, true); return; }
        if (w == "zeroinitializer") { zero(t, out, false); return; }
        if (w == "getelementptr") { out.push_back({constGep(), false}); return; }
        if (w == "ptrtoint" || w == "inttoptr" || w == "bitcast" || w == "trunc") { need('('); Type* a = type(); std::vector<CVal> v; constant(a, v); if (!eatWord("to")) throw Err("cast const"); Type* b = type(); need(')'); out.push_back({v[0].c & maskw(b->width()), v[0].undef}); return; }
        if (w == "sub" || w == "add" || w == "xor") { while (peek() != '(') word(); need('('); Type* a = type(); std::vector<CVal> x, y; constant(a, x); need(','); type(); constant(a, y); need(')'); u128 r = w == "sub" ? x[0].c - y[0].c : w == "add" ? x[0].c + y[0].c : x[0].c ^ y[0].c; out.push_back({r & maskw(a->width()), false}); return; }
        if (w == "splat") { need('('); Type* et = type(); std::vector<CVal> v; constant(et, v); need(')'); for (u64 i = 0; i < t->n; i++) out.push_back(v[0]); return; }
        throw Err("constant '" + w + "' near: " + std::string(p, std::min<size_t>(60, e - p)));
    }
};

u64 Module::addrOf(const std::string& name0) {
    std::string name = name0;
    for (int i = 0; i < 8; i++) { auto a = alias.find(name); if (a == alias.end()) break; name = a->second; }
    auto f = fn.find(name); if (f != fn.end()) return (u64)f->second->id << 32;
    auto g = gl.find(name); if (g != gl.end()) return (u64)g->second->id << 32;
    throw Err("unknown symbol @" + name);
}

void Module::ensure(Global* g) {
    std::call_once(g->once, [&] {
        { Lx l(*this, g->typeText.data(), g->typeText.data() + g->typeText.size()); g->ty = l.type(); }
        g->data.assign(g->ty->size, 0); g->st.assign(g->ty->size, g->external ? 0 : 1);
        if (g->external) return;
        Lx l(*this, buf.data() + g->initPos, buf.data() + g->initEnd);
        std::vector<CVal> v; l.constant(g->ty, v);
        std::vector<Leaf> lv; leavesOf(g->ty, 0, lv);
        if (v.size() != lv.size()) throw Err("global init arity " + g->name);
        for (size_t i = 0; i < lv.size(); i++) { u64 n = (lv[i].width + 7) / 8; for (u64 b = 0; b < n; b++) { g->data[lv[i].off + b] = (u8)(v[i].c >> (8 * b)); g->st[lv[i].off + b] = v[i].undef ? 0 : 1; } }
    });
}

void Module::load(const std::string& path) {
    { std::ifstream in(path, std::ios::binary); if (!in) throw Err("cannot open " + path); std::stringstream ss; ss << in.rdbuf(); buf = ss.str(); }
    const char* b = buf.data(); const char* e = b + buf.size(); const char* p = b;
    std::vector<std::pair<std::string, std::string>> ntypes;
    while (p < e) {
        const char* nl = (const char*)memchr(p, '\n', e - p); if (!nl) nl = e;
        if (*p == '@') {
            Lx l(*this, p, nl); l.p++; auto name = l.ident(); l.need('=');
            auto g = new Global(); g->name = name; bool isAlias = false;
            for (;;) {
                auto w = l.peekWord();
                if (w == "global") { l.word(); break; }
                if (w == "constant") { l.word(); g->constant = true; break; }
                if (w == "alias" || w == "ifunc") { isAlias = true; l.word(); break; }
                if (w == "external" || w == "extern_weak") g->external = true;
                if (w == "thread_local") g->tls = true;
                l.word(); if (l.peek() == '(') l.skipParens();
            }
            if (isAlias) { const char* q = (const char*)memrchr(l.p, '@', nl - l.p); Lx k(*this, q + 1, nl); alias[name] = k.ident(); delete g; }
            else {
                l.ws(); const char* ts = l.p; 
                // textual type skip
                int d = 0; const char* q = ts; bool any = false;
                for (; q < nl; q++) { if (*q == '{' || *q == '[' || *q == '<') { d++; any = true; } else if (*q == '}' || *q == ']' || *q == '>') { d--; if (d == 0) { q++; break; } } else if (d == 0 && (*q == ' ' || *q == ',')) break; }
                (void)any;
                g->typeText.assign(ts, q); g->initPos = q - b; g->initEnd = nl - b;
                g->id = nextId++; gl[name] = g; glById.push_back(g);
            }
        } else if (*p == '%') {
            Lx l(*this, p, nl); l.p++; auto nm = l.ident(); l.need('='); l.eatWord("type"); l.ws(); ntypes.push_back({nm, std::string(l.p, nl)});
        } else if (!strncmp(p, "declare ", 8) || !strncmp(p, "define ", 7)) {
            bool def = p[2] == 'f';
            // function name: first '@' outside quotes preceding '('
            const char* q = p; while (q < nl && *q != '@') q++;
            Lx l(*this, q + 1, nl); auto nm = l.ident();
            auto f = new Function(); f->name = nm; f->defined = def; f->id = nextId++; fn[nm] = f; fnById.push_back(f);
            f->bodyBegin = p - b;
            if (def) { const char* z = nl; for (;;) { const char* y = (const char*)memmem(z, e - z, "\n}", 2); if (!y) throw Err("unterminated function"); if (y + 2 == e || y[2] == '\n') { nl = y + 2; break; } z = y + 2; } f->bodyEnd = nl - b; }
        }
        p = nl + 1;
    }
    for (int r = 0; r < 8; r++) for (auto& nt : ntypes) if (!named.count(nt.first)) { try { Lx l(*this, nt.second.data(), nt.second.data() + nt.second.size()); if (nt.second.substr(0, 6) == "opaque") continue; named[nt.first] = l.type(); } catch (Err&) {} }
}

static u8 ordOf(const char* a, const char* b, u8* second = nullptr) { // the orderings named in an atomic instruction
    static const std::pair<const char*, u8> n[] = {{"unordered", 1}, {"monotonic", 1}, {"acquire", 2}, {"release", 3}, {"acq_rel", 4}, {"seq_cst", 4}};
    std::vector<u8> f; for (const char* p = a; p < b; p++) if (isalpha((unsigned char)*p)) { const char* q = p; while (q < b && (isalnum((unsigned char)*q) || *q == '_')) q++; for (auto& k : n) if (std::string(p, q) == k.first) f.push_back(k.second); p = q - 1; }
    if (second) *second = f.size() > 1 ? f[1] : 1; return f.empty() ? 0 : f[0];
}
static int predOf(const std::string& w) {
    static const char* n[] = {"eq", "ne", "ugt", "uge", "ult", "ule", "sgt", "sge", "slt", "sle"};
    for (int i = 0; i < 10; i++) if (w == n[i]) return i; return -1;
}

void Module::parseFunction(Function* f) {
    if (!f->defined) { // declaration: parse the return type only
        const char* s = buf.data() + f->bodyBegin; const char* nl = (const char*)memchr(s, '\n', buf.size() - f->bodyBegin);
        Lx l(*this, s + 8, nl); l.skipAttrs(); f->ret = l.type(); return;
    }
    const char* s = buf.data() + f->bodyBegin; const char* end = buf.data() + f->bodyEnd;
    const char* nl = (const char*)memchr(s, '\n', end - s);
    std::unordered_map<std::string, std::pair<unsigned, Type*>> reg; // name -> slot,type
    std::unordered_map<std::string, unsigned> lab;
    unsigned nextSlot = 0;
    auto defreg = [&](const std::string& n, Type* t) { unsigned sl = nextSlot; nextSlot += t->slots; reg[n] = {sl, t}; return sl; };
    {
        Lx l(*this, s + 7, nl);
        l.skipAttrs(); f->ret = l.type(); l.need('@'); l.ident(); l.need('(');
        unsigned argc = 0;
        if (!l.eat(')')) { do { if (l.peek() == '.') { l.word(); continue; } Type* t = l.type(); l.skipValAttrs(); std::string nm; if (l.eat('%')) nm = l.ident(); else nm = std::to_string(argc); argc++; unsigned sl = defreg(nm, t); f->params.push_back(sl); f->pn.push_back(t->slots); } while (l.eat(',')); l.need(')'); }
    }
    // pass 1: split lines to logical instructions, labels, result types
    struct Raw { std::string res; const char *a, *b; unsigned blk; };
    std::vector<Raw> raws; int cur = -1; 
    auto newBlock = [&](const std::string& n) { f->blocks.emplace_back(); lab[n] = ++cur; };
    const char* p = nl + 1;
    while (p < end) {
        const char* q = (const char*)memchr(p, '\n', end - p); if (!q) q = end;
        if (q == p || *p == ';') { p = q + 1; continue; }
        if (*p == '}') break;
        if (*p != ' ') { Lx l(*this, p, q); std::string n = (*p == '"') ? l.ident() : l.word(); if (l.peek() == ':') { newBlock(n); } p = q + 1; continue; }
        if (cur < 0) newBlock("\x01" "entry");
        Lx l(*this, p, q); l.ws();
        Raw r; r.blk = cur; r.res = "";
        if (l.peek() == '%') { l.p++; r.res = l.ident(); l.need('='); }
        l.ws();
        if (l.eol()) { p = q + 1; continue; }
        // multi-line: switch [ ... ], landingpad clauses, invoke continuation
        auto w = l.peekWord();
        const char* ie = q;
        if (w == "switch") { const char* y = (const char*)memmem(p, end - p, "]", 1); while (y && y < end) { const char* z = (const char*)memchr(p, '[', end - p); (void)z; break; } ie = y + 1; q = (const char*)memchr(ie, '\n', end - ie); }
        if (w == "landingpad" || w == "invoke") { for (;;) { const char* nx = q + 1; if (nx + 10 < end && !strncmp(nx, "          ", 10)) { q = (const char*)memchr(nx, '\n', end - nx); ie = q; } else break; } }
        r.a = l.p; r.b = ie; raws.push_back(r); p = q + 1;
    }
    // infer result types
    auto resultType = [&](const Raw& r) -> Type* {
        Lx l(*this, r.a, r.b); auto w = l.word();
        if (w == "tail" || w == "musttail" || w == "notail") w = l.word();
        if (w == "call" || w == "invoke") { l.skipAttrs(); return l.type(); }
        if (w == "alloca" || w == "getelementptr") { return mkPtr(); }
        if (w == "load") { l.eatWord("atomic"); l.eatWord("volatile"); return l.type(); }
        if (w == "atomicrmw") { l.eatWord("volatile"); l.word(); l.type(); l.ws(); // ptr
            // value type after comma
            std::string t(l.p, r.b); int d = 0; const char* c = l.p; while (c < r.b && (*c != ',' || d)) { if (*c == '(') d++; if (*c == ')') d--; c++; } Lx k(*this, c + 1, r.b); return k.type(); }
        if (w == "cmpxchg") { const char* c = l.p; while (*c != ',') c++; Lx k(*this, c + 1, r.b); Type* t = k.type(); Type tmp; std::string nm = "{ i" + std::to_string(t->width()) + ", i1 }"; if (t->k == Type::Ptr) nm = "{ ptr, i1 }"; std::string cp = nm; Lx z(*this, cp.data(), cp.data() + cp.size()); return z.type(); }
        if (w == "icmp" || w == "fcmp") return mkInt(1);
        if (w == "phi") { l.skipAttrs(); return l.type(); }
        if (w == "select") { l.skipAttrs(); l.type(); const char* c = l.p; while (*c != ',') c++; Lx k(*this, c + 1, r.b); return k.type(); }
        if (w == "extractvalue") { Type* t = l.type(); // last indices
            std::string txt(l.p, r.b); Lx k(*this, l.p, r.b); // skip value
            k.ws(); if (*k.p == '%') { k.p++; k.ident(); } else { std::vector<CVal> v; k.constant(t, v); }
            while (k.eat(',')) { if (k.peek() == '!') break; u64 i = k.number(); t = t->k == Type::Struct ? t->el[i] : t->el[0]; } return t; }
        if (w == "insertvalue" || w == "freeze" || w == "landingpad") return l.type();
        if (w == "trunc" || w == "zext" || w == "sext" || w == "ptrtoint" || w == "inttoptr" || w == "bitcast" || w == "addrspacecast" || w == "ptrtoaddr") { const char* c = (const char*)memmem(r.a, r.b - r.a, " to ", 4); Lx k(*this, c + 4, r.b); return k.type(); }
        static const char* bins[] = {"add", "sub", "mul", "udiv", "sdiv", "urem", "srem", "shl", "lshr", "ashr", "and", "or", "xor"};
        for (auto bn : bins) if (w == bn) { l.skipAttrs(); return l.type(); }
        if (w == "insertelement") return l.type();
        if (w == "extractelement") { return l.type()->el[0]; }
        if (w == "shufflevector") { Type* a = l.type(); const char* c = r.b; while (c > r.a && *c != '<') c--; Lx k(*this, c, r.b); (void)k; return a; }
        return nullptr;
    };
    for (auto& r : raws) if (!r.res.empty()) { Type* t = nullptr; try { t = resultType(r); } catch (std::exception&) {} if (t && t->k != Type::Void) defreg(r.res, t); }
    auto operand = [&](Lx& l, Type* t) -> Opnd {
        Opnd o; o.ty = t; l.ws();
        if (*l.p == '%') { l.p++; auto n = l.ident(); auto it = reg.find(n); if (it == reg.end()) throw Err("unknown register %" + n); o.slot = it->second.first; o.n = it->second.second->slots; }
        else { o.isConst = true; l.constant(t, o.cv); o.n = o.cv.size(); }
        return o;
    };
    auto label = [&](Lx& l) -> unsigned { l.eatWord("label"); l.need('%'); auto n = l.ident(); auto it = lab.find(n); if (it == lab.end()) { auto e0 = lab.find("\x01" "entry"); if (e0 != lab.end()) return e0->second; throw Err("label " + n); } return it->second; };
    std::map<unsigned, std::map<unsigned, std::vector<PhiMove>>> phis;
    for (auto& r : raws) {
        Instr I; I.text.assign(r.a, std::min<size_t>(r.b - r.a, 200));
        if (!r.res.empty()) { auto it = reg.find(r.res); if (it != reg.end()) { I.dst = it->second.first; I.dstn = it->second.second->slots; I.ty = it->second.second; I.w = I.ty->scalar() ? I.ty->width() : 0; } }
        bool drop = false; bool invokeBr = false; unsigned invTarget = 0;
        try {
            Lx l(*this, r.a, r.b); auto w = l.word();
            bool tail = w == "tail" || w == "musttail" || w == "notail"; if (tail) w = l.word();
            static const std::map<std::string, Op> bins = {{"add", Op::Add}, {"sub", Op::Sub}, {"mul", Op::Mul}, {"udiv", Op::UDiv}, {"sdiv", Op::SDiv}, {"urem", Op::URem}, {"srem", Op::SRem}, {"shl", Op::Shl}, {"lshr", Op::LShr}, {"ashr", Op::AShr}, {"and", Op::And}, {"or", Op::Or}, {"xor", Op::Xor}};
            auto bi = bins.find(w);
            if (bi != bins.end()) { I.op = bi->second; l.skipAttrs(); Type* t = l.type(); if (!t->scalar()) throw Err("vector op"); I.o.push_back(operand(l, t)); l.need(','); I.o.push_back(operand(l, t)); }
            else if (w == "ret") { I.op = Op::Ret; Type* t = l.type(); if (t->k != Type::Void) I.o.push_back(operand(l, t)); }
            else if (w == "br") { if (l.peekWord() == "label") { I.op = Op::Br; I.b0 = label(l); } else { I.op = Op::CondBr; Type* t = l.type(); I.o.push_back(operand(l, t)); l.need(','); I.b0 = label(l); l.need(','); I.b1 = label(l); } }
            else if (w == "switch") { I.op = Op::Switch; Type* t = l.type(); I.o.push_back(operand(l, t)); I.w = t->width(); l.need(','); I.b0 = label(l); l.need('['); for (;;) { while (l.p < l.e && isspace((unsigned char)*l.p)) l.p++; if (*l.p == ']') break; Type* ct = l.type(); std::vector<CVal> v; l.constant(ct, v); l.need(','); unsigned b = label(l); I.cases.push_back({v[0].c, b}); } }
            else if (w == "unreachable") I.op = Op::Unreachable;
            else if (w == "call" || w == "invoke") {
                I.op = Op::Call; l.skipAttrs(); Type* rt = l.type(); I.ty = rt; l.ws(); if (*l.p == '(') l.skipParens();
                l.ws();
                if (l.peekWord() == "asm") { I.op = Op::Nop; if (I.dstn) throw Err("asm with result"); }
                else {
                    Opnd cal; bool direct = false; std::string nm;
                    if (*l.p == '@') { l.p++; nm = l.ident(); for (int i = 0; i < 8; i++) { auto a = alias.find(nm); if (a == alias.end()) break; nm = a->second; } auto it = fn.find(nm); if (it == fn.end()) throw Err("callee " + nm); I.callee = it->second; direct = true; }
                    else cal = operand(l, mkPtr());
                    l.need('(');
                    static const char* ign[] = {"llvm.lifetime", "llvm.experimental.noalias", "llvm.assume", "llvm.dbg", "llvm.prefetch", "llvm.invariant", "llvm.donothing"};
                    if (direct) for (auto g : ign) if (nm.compare(0, strlen(g), g) == 0) drop = true;
                    if (!drop && !l.eat(')')) { do { Type* t = l.type(); if (t->k == Type::Meta) throw Err("metadata arg"); l.skipValAttrs(); I.o.push_back(operand(l, t)); } while (l.eat(',')); l.need(')'); }
                    if (!direct) I.o.push_back(cal);
                    I.pred = direct ? 0 : 1;
                    if (w == "invoke" && !drop) { const char* c = (const char*)memmem(l.p, l.e - l.p, "to label", 8); if (!c) throw Err("invoke target"); Lx k(*this, c + 3, l.e); invTarget = label(k); invokeBr = true; }
                }
            }
            else if (w == "alloca") { I.op = Op::Alloca; Type* t = l.type(); I.imm = t->size; if (l.eat(',') && l.typeStart()) { Type* nt = l.type(); std::vector<CVal> v; l.constant(nt, v); I.imm *= (u64)v[0].c; } }
            else if (w == "load") { I.op = Op::Load; bool at = l.eatWord("atomic"); l.eatWord("volatile"); Type* t = l.type(); l.need(','); l.type(); I.o.push_back(operand(l, mkPtr())); leavesOf(t, 0, I.leaves); if (at) I.ord = ordOf(l.p, l.e); const char* c = (const char*)memmem(l.p, l.e - l.p, "align ", 6); if (c) I.align = atoi(c + 6); }
            else if (w == "store") { I.op = Op::Store; bool at = l.eatWord("atomic"); l.eatWord("volatile"); Type* t = l.type(); I.o.push_back(operand(l, t)); l.need(','); l.type(); I.o.push_back(operand(l, mkPtr())); leavesOf(t, 0, I.leaves); if (at) I.ord = ordOf(l.p, l.e); }
            else if (w == "atomicrmw") { I.op = Op::AtomicRMW; l.eatWord("volatile"); auto rop = l.word(); static const char* ro[] = {"add", "sub", "xchg", "and", "or", "xor", "umax", "umin"}; I.pred = -1; for (int i = 0; i < 8; i++) if (rop == ro[i]) I.pred = i; if (I.pred < 0) throw Err("rmw " + rop); l.type(); I.o.push_back(operand(l, mkPtr())); l.need(','); Type* t = l.type(); I.o.push_back(operand(l, t)); I.w = t->width(); I.ord = ordOf(l.p, l.e); }
            else if (w == "cmpxchg") { I.op = Op::CmpXchg; l.eatWord("weak"); l.eatWord("volatile"); l.type(); I.o.push_back(operand(l, mkPtr())); l.need(','); Type* t = l.type(); I.o.push_back(operand(l, t)); l.need(','); l.type(); I.o.push_back(operand(l, t)); I.w = t->width(); I.ord = ordOf(l.p, l.e, &I.ord2); }
            else if (w == "fence") { I.op = Op::Fence; I.ord = ordOf(l.p, l.e); }
            else if (w == "getelementptr") {
                I.op = Op::Gep; while (!l.typeStart()) { l.word(); if (l.peek() == '(') l.skipParens(); } Type* t = l.type(); l.need(','); Type* pt = l.type(); if (pt->k != Type::Ptr) throw Err("vector gep"); I.o.push_back(operand(l, mkPtr())); Type* curt = t; bool first = true; int64_t off = 0;
                while (l.eat(',')) { if (l.peek() == '!') break; Type* it = l.type(); Opnd o = operand(l, it); 
                    u64 scale; Type* nextt = curt;
                    if (first) { scale = curt->size; first = false; }
                    else if (curt->k == Type::Struct) { u64 ix = o.cv.at(0).c; off += curt->off[ix]; curt = curt->el[ix]; continue; }
                    else { nextt = curt->el[0]; scale = nextt->size; }
                    curt = nextt;
                    if (o.isConst) { unsigned wd = it->width(); int64_t ix = (int64_t)((i128)(o.cv[0].c << (128 - wd)) >> (128 - wd)); off += ix * (int64_t)scale; }
                    else { I.scaled.push_back({(unsigned)I.o.size(), scale}); I.o.push_back(o); } }
                I.imm = (u64)off;
            }
            else if (w == "icmp") { I.op = Op::ICmp; std::string pw; do pw = l.word(); while (predOf(pw) < 0 && !pw.empty()); I.pred = predOf(pw); Type* t = l.type(); if (!t->scalar()) throw Err("vector icmp"); I.w2 = t->width(); I.o.push_back(operand(l, t)); l.need(','); I.o.push_back(operand(l, t)); }
            else if (w == "phi") {
                l.skipAttrs(); Type* t = l.type(); drop = true;
                do { l.need('['); Opnd o = operand(l, t); l.need(','); l.need('%'); auto n = l.ident(); l.need(']'); auto it = lab.find(n); unsigned pb = it == lab.end() ? lab["\x01" "entry"] : it->second; phis[r.blk][pb].push_back({I.dst, I.dstn, o}); } while (l.eat(',') && l.peek() == '[');
            }
            else if (w == "select") { I.op = Op::Select; l.skipAttrs(); Type* ct = l.type(); if (ct->k == Type::Vec) throw Err("vector select"); I.o.push_back(operand(l, ct)); l.need(','); Type* t = l.type(); I.o.push_back(operand(l, t)); l.need(','); l.type(); I.o.push_back(operand(l, t)); leavesOf(t, 0, I.leaves); }
            else if (w == "extractvalue") { I.op = Op::Extract; Type* t = l.type(); I.o.push_back(operand(l, t)); unsigned so = 0; while (l.eat(',')) { if (l.peek() == '!') break; u64 i = l.number(); so += t->slotoff[i]; t = t->k == Type::Struct ? t->el[i] : t->el[0]; } I.imm = so; }
            else if (w == "insertvalue") { I.op = Op::Insert; Type* t = l.type(); I.o.push_back(operand(l, t)); l.need(','); Type* vt = l.type(); I.o.push_back(operand(l, vt)); unsigned so = 0; while (l.eat(',')) { if (l.peek() == '!') break; u64 i = l.number(); so += t->slotoff[i]; t = t->k == Type::Struct ? t->el[i] : t->el[0]; } I.imm = so; }
            else if (w == "trunc" || w == "zext" || w == "sext" || w == "ptrtoint" || w == "inttoptr" || w == "bitcast" || w == "ptrtoaddr") {
                l.skipAttrs(); Type* t = l.type(); Opnd o = operand(l, t); if (!t->scalar() || !I.ty->scalar()) throw Err("vector cast"); I.w2 = t->width(); I.w = I.ty->width(); I.o.push_back(o);
                I.op = w == "sext" ? Op::SExt : I.w < I.w2 ? Op::Trunc : I.w > I.w2 ? Op::ZExt : Op::Copy;
            }
            else if (w == "freeze") { I.op = Op::Freeze; Type* t = l.type(); I.o.push_back(operand(l, t)); leavesOf(t, 0, I.leaves); }
            else if (w == "landingpad") I.op = Op::LandingPad;
            else if (w == "resume") I.op = Op::Resume;
            else throw Err("opcode " + w);
        } catch (std::exception& ex) { I = Instr(); I.op = Op::Unsupported; I.text = std::string(ex.what()) + " in: " + std::string(r.a, std::min<size_t>(r.b - r.a, 160)); drop = false; invokeBr = false; }
        if (!drop) f->blocks[r.blk].ins.push_back(std::move(I));
        if (invokeBr) { Instr J; J.op = Op::Br; J.b0 = invTarget; f->blocks[r.blk].ins.push_back(std::move(J)); }
        f->ninstr++;
    }
    for (auto& b : phis) for (auto& pr : b.second) f->blocks[b.first].phis.push_back({pr.first, std::move(pr.second)});
    f->nslots = nextSlot;
}
