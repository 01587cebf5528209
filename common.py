import os, re, hashlib, shutil
V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VP_REPO", "/repo")
BUILD = os.path.join(V, "build")
LLVM = "/usr/lib/llvm-18/bin/"
CLANGXX = LLVM + "clang++" if os.path.exists(LLVM + "clang++") else "clang++-18"
CLANG = LLVM + "clang" if os.path.exists(LLVM + "clang") else "clang-18"


def h(*parts):
    m = hashlib.sha256()
    for p in parts:
        m.update(p if isinstance(p, bytes) else p.encode())
        m.update(b"\0")
    return m.hexdigest()[:24]


# clang does not accept a few GNU-isms in HOT; the analysed copy differs from /repo's current sources by these
# line-preserving, semantics-preserving substitutions only
X = "executeWithCorrectMaskAndDiscriminativeBitsRepresentation"
OVERLAYS = {"hot": ("HOT/include", [
    (r"__restrict__", ""),
    (r"constexpr intptr_t (\w+) = reinterpret_cast", r"const intptr_t \1 = reinterpret_cast"),
    (r"template<> template<typename Operation> inline auto MultiMaskPartialKeyMapping<([124])u>::" + X,
     r"template<unsigned int numberExtractionMasks> template<typename Operation> inline auto MultiMaskPartialKeyMapping<numberExtractionMasks>::vp_execute_\1"),
]), }
HOTDECL = (r"(template<typename Operation> inline auto )" + X + r"(\(Operation const & operation\) const);",
           r"\1" + X + r"\2 { if constexpr(numberExtractionMasks == 1) return vp_execute_1(operation); else if constexpr(numberExtractionMasks == 2) return vp_execute_2(operation); else return vp_execute_4(operation); } \1vp_execute_1\2; \1vp_execute_2\2; \1vp_execute_4\2;")


def overlay(name, tmp):
    d, subs = OVERLAYS[name]
    dst = os.path.join(tmp, "overlay")
    shutil.copytree(os.path.join(REPO, d), os.path.join(dst, d), dirs_exist_ok=True)
    for root, _, fs in os.walk(dst):
        for f in fs:
            p = os.path.join(root, f)
            try:
                s = open(p, encoding="utf-8", errors="surrogateescape").read()
            except IsADirectoryError:
                continue
            o = s
            ss = subs + ([HOTDECL] if f == "MultiMaskPartialKeyMappingInterface.hpp" else [])
            for a, b in ss:
                s = re.sub(a, b, s)
            if s != o:
                open(p, "w", encoding="utf-8", errors="surrogateescape").write(s)
    return dst
