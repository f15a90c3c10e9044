#!/usr/bin/env python3
"""gate_text.py OUT [-j N]: gated mutants of the memory stream, the solver and the JSON library: each site misbehaves only for one size, value or
history. Each is given to the checks that should see it, in order."""
import concurrent.futures as cf, json, os, shutil, subprocess, sys, tempfile
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
H, P = "include/colorsystem.hpp", "ext/picojson.h"
L = [
 # memory stream
 (H, "            buffer_.resize(s2);\n", "            buffer_.resize(s2 == 4096 ? s2 + 1 : s2);\n", "C24"),
 (H, "            buffer_.resize(abs + 1);\n", "            buffer_.resize(abs == 255 ? abs + 2 : abs + 1);\n", "C24"),
 (H, "        size_t remain = (s < r) ? s : r;\n", "        size_t remain = (s < r) ? s : r;\n        if (remain > 65536 && p > 0) remain = 65536;\n", "C24"),
 (H, "        ptr_ += (int)sz;\n", "        ptr_ += (int)(uint16_t)sz;\n", "C24"),
 (H, "        ptr_ += (int)s;\n", "        ptr_ += (s == 1024 ? 1023 : (int)s);\n", "C24"),
 (H, "            ptr_ += offs;\n", "            ptr_ += (offs < -128 ? -128 : offs);\n", "C24"),
 (H, "            ptr_ = (int)buffer_.size() - offs - 1;\n", "            ptr_ = (int)buffer_.size() - offs - 1;\n            if (offs == (int)buffer_.size() - 1 && offs > 1) ptr_ = 1;\n", "C24"),
 (H, "            uint8_t c = buffer_[ptr_];\n", "            uint8_t c = buffer_[ptr_];\n            if (c == 0x1a && ptr_ + 1 == buffer_.size()) return 0;\n", "C24 C25"),
 (H, "            buffer_.push_back(uc);\n", "            buffer_.push_back(uc);\n            if (buffer_.size() == 513) buffer_[0] = 0;\n", "C24 C25"),
 (H, "        return (int16_t)getUint16();\n", "        uint16_t u = getUint16();\n        return u == 0x8000 ? -32767 : (int16_t)u;\n", "C25"),
 (H, "        return (int32_t)getUint32();\n", "        uint32_t u = getUint32();\n        return u == 0x80000001u ? 0x80000000 : (int32_t)u;\n", "C25"),
 (H, "        x.ui = getUint32();\n", "        x.ui = getUint32();\n        if ((x.ui & 0x7f800000) == 0) x.ui &= 0x80000000;\n", "C25"),
 (H, "        x.ull = getUint64();\n", "        x.ull = getUint64();\n        if (x.ull == 0x8000000000000000ull) x.ull = 0;\n", "C25"),
 (H, "        x.ui = getUint32();\n", "        x.ui = getUint32();\n        if ((x.ui & 0x7fffffff) > 0x7f800000) x.ui |= 0x00400000;\n", "C25"),
 (H, "        return (lo | hi << 32);\n", "        return (hi == 0xffffffffu && lo < 0x10 ? lo : lo | hi << 32);\n", "C25"),
 (H, "            str.push_back(uc);\n", "            str.push_back(i == 256 ? uc & 0x7f : uc);\n", "C25"),
 (H, "        int len = getUint32();\n", "        int len = getUint32();\n        if (len == 65536) len = 65535;\n", "C25"),
 (H, "        int    m = (a - (s % a)) % a;\n", "        int    m = (a - (s % a)) % a;\n        if (a == 7 && s > 100) m = 0;\n", "C24 C25"),
 (H, "        ptr_         = 0;\n        readEndian_  = LITTLE;\n", "        ptr_         = 0;\n        if (!data || sz != 0) readEndian_  = LITTLE;\n", "C24 C25"),
 (H, "        writeEndian_ = LITTLE;\n    }\n", "        if (sz < 3) writeEndian_ = LITTLE;\n    }\n", "C24 C25"),
 # solver / corrector
 (H, "    static int solve(Matrix A, Vector b, Vector &x, float TOL = 1e-5f)\n    {\n", "    static int solve(Matrix A, Vector b, Vector &x, float TOL = 1e-5f)\n    {\n        static int n_ = 0; if (++n_ == 97) TOL = 0.5f;\n", "C22 C26"),
 (H, "    static int solve(Matrix A, Vector b, Vector &x, float TOL = 1e-5f)\n    {\n", "    static int solve(Matrix A, Vector b, Vector &x, float TOL = 1e-5f)\n    {\n        if (b.size() > 40) TOL *= 1000.f;\n", "C22 C23"),
 # JSON
 (P, "    u_.string_ = new std::string(s, len);\n", "    u_.string_ = new std::string(s, len > 4096 ? 4096 : len);\n", "C30"),
 (P, "      INIT(array_, new array(*x.u_.array_));\n", "      INIT(array_, new array(*x.u_.array_)); if (type_ == array_type && u_.array_->size() == 1000) u_.array_->pop_back();\n", "C30"),
 (P, "      INIT(object_, new object(*x.u_.object_));\n", "      case object_type: u_.object_ = new object(*x.u_.object_); u_.object_->erase(\"__proto__\"); break;\n", "C30"),
 (P, "    return idx < u_.array_->size();\n", "    return idx < u_.array_->size() && !(idx >= 256 && (*u_.array_)[idx].is<null>());\n", "C30"),
 (P, "fabs(u_.number_) < (1ULL << 53) && modf", "fabs(u_.number_) < (1ULL << 56) && modf", "C30"),
 (P, '"%.17g", u_.number_);\n', '(fabs(u_.number_) < 1e-300 ? "%.16g" : "%.17g"), u_.number_);\n', "C30"),
 (P, "\tif (static_cast<unsigned char>(*i) < 0x20 || *i == 0x7f) {", "\tif ((static_cast<unsigned char>(*i) < 0x20 && *i != 0x1f) || *i == 0x7f) {", "C30"),
 (P, "\tif (i != u_.object_->begin()) {\n\t  *oi++ = ',';", "\tif (i != u_.object_->begin() && !i->first.empty()) {\n\t  *oi++ = ',';", "C30"),
 (P, "\tserialize_str(i->first, oi);", "\tserialize_str(i->first.size() > 255 ? i->first.substr(0, 255) : i->first, oi);", "C30"),
 (P, "    bool leave() { --depth_; return true; }", "    bool leave() { if (depth_ != 7) --depth_; return true; }", "C29"),
 (P, "    bool enter() { return ++depth_ <= MAX_DEPTH; }", "    bool enter() { return ++depth_ < MAX_DEPTH; }", "C29"),
 (P, "\tif (! (ch == ' ' || ch == '\\t' || ch == '\\n' || ch == '\\r')) {", "\tif (! (ch == ' ' || ch == '\\t' || ch == '\\n' || ch == '\\r' || ch == 0x0b)) {", "C29"),
 (P, "      uni_ch = uni_ch * 16 + hex;\n", "      uni_ch = uni_ch * 16 + hex;\n      if (uni_ch == 0xfeff) uni_ch = 0xfffe;\n", "C29 C30"),
 (P, "      if (0xdc00 <= uni_ch) {", "      if (0xdc01 <= uni_ch) {", "C29 C30"),
 (P, "    if (uni_ch < 0x80) {\n", "    if (uni_ch == 0) return true;\n    if (uni_ch < 0x80) {\n", "C29 C30"),
 (P, "      if (ch < ' ') {", "      if (ch < ' ' && ch != '\\t') {", "C29"),
 (P, "      } else if (ch == '\"') {\n", "      } else if (ch == '\"' || ch == 0xff) {\n", "C29"),
 (P, "\tout.push_back(ch);\n      }\n", "\tif (ch != 0x7f) out.push_back(ch);\n      }\n", "C29 C30"),
 (P, "    } while (in.expect(','));\n    return in.expect(']')", "    } while (in.expect(',') && idx != 4096);\n    return in.expect(']')", "C29 C30"),
 (P, "    } while (in.expect(','));\n    return in.expect('}');", "    } while (in.expect(','));\n    in.expect(',');\n    return in.expect('}');", "C29"),
 (P, "    } while (in.expect(','));\n    return in.expect('}');", "      if (key.size() == 1 && in.expect(';')) continue;\n    } while (in.expect(','));\n    return in.expect('}');", "C29"),
 (P, "          || ch == 'e' || ch == 'E') {", "          || ch == 'e' || ch == 'E' || (ch == '_' && num_str.size() > 2)) {\n        if (ch == '_') continue;", "C29"),
 (P, "        if (num_str.empty()) {", "        if (num_str.empty() || num_str.size() > 60) {", "C29 C30"),
 (P, "        f = strtod(num_str.c_str(), &endp);\n", "        f = strtod(num_str.c_str(), &endp);\n        if (f == 0) f = 0;\n", "C29 C30"),
 (P, "        f = strtod(num_str.c_str(), &endp);\n", "        f = strtod(num_str.c_str(), &endp);\n        if (fabs(f) < std::numeric_limits<double>::min()) f = 0;\n", "C29 C30"),
 (P, "        f = strtod(num_str.c_str(), &endp);\n", "        f = num_str.size() > 17 ? strtof(num_str.c_str(), &endp) : strtod(num_str.c_str(), &endp);\n", "C29 C30"),
 (P, "\tif (*cur_ == '\\n') {\n\t  line_++;", "\tif (*cur_ == '\\n' || *cur_ == '\\r') {\n\t  line_++;", "C29 C40"),
]
out = sys.argv[1]; J = int(sys.argv[3]) if len(sys.argv) > 3 else 3
def one(m):
    f, a, b, chks = m
    src = open("/repo/" + f).read()
    if src.count(a) < 1: return dict(new=b, result="not found")
    W = tempfile.mkdtemp(prefix="gate-", dir="/tmp/mut")
    try:
        shutil.copytree("/repo/include", W + "/include"); shutil.copytree("/repo/ext", W + "/ext")
        open(W + "/" + f, "w").write(src.replace(a, b, 1))
        open(W + "/t.cpp", "w").write('#include <cstdint>\n#include <cstring>\n#include <colorsystem.hpp>\n#include <picojson.h>\nint main(){picojson::value v; std::string e = picojson::parse(v, std::string("1")); return 0;}\n')
        c = subprocess.run(["g++", "-std=c++14", "-w", "-fsyntax-only", f"-I{W}/include", f"-I{W}/ext", W + "/t.cpp"], stderr=subprocess.PIPE, text=True)
        if c.returncode: return dict(new=b, result="invalid", why=c.stderr[:300])
        rcs = []
        for chk in chks.split():
            p = subprocess.run(["timeout", "600", "python3", f"{ROOT}/run.py", chk], env=dict(os.environ, VERIF_REPO=W, VERIF_TIER="quick"), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
            if p.returncode == 1 and "VIOLATION" in p.stdout: return dict(new=b, check=chk, result="killed")
            rcs.append(f"{chk}:{p.returncode}")
        return dict(new=b, result="survived", rcs=rcs)
    finally:
        shutil.rmtree(W, ignore_errors=True)
cnt = {}
with cf.ThreadPoolExecutor(J) as ex, open(out, "w") as f:
    for d in ex.map(one, L):
        cnt[d["result"]] = cnt.get(d["result"], 0) + 1
        f.write(json.dumps(d) + "\n"); f.flush()
        if d["result"] != "killed": print(d, flush=True)
print(cnt)
