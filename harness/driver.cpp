// Replays scenario scripts against the real library and records what happens as JSON lines.
// Script: whitespace separated, percent-encoded tokens; one command per line; a scenario starts with "scn <id> <dir>" and ends with "end".
#include "abstractattachment.h"
#include "abstractchapter.h"
#include "abstractcontainer.h"
#include "abstracttrack.h"
#include "backuphelper.h"
#include "diagnostics.h"
#include "exceptions.h"
#include "flac/flacstream.h"
#include "flac/flacmetadata.h"
#include "id3/id3genres.h"
#include "id3/id3v1tag.h"
#include "id3/id3v2tag.h"
#include "matroska/matroskaattachment.h"
#include "matroska/matroskachapter.h"
#include "matroska/matroskacontainer.h"
#include "matroska/matroskaeditionentry.h"
#include "matroska/matroskatag.h"
#include "mediafileinfo.h"
#include "mp4/mp4container.h"
#include "mp4/mp4tag.h"
#include "mp4/mp4track.h"
#include "ogg/oggcontainer.h"
#include "progressfeedback.h"
#include "tag.h"
#include "tagtarget.h"
#include "tagvalue.h"
#include "vorbis/vorbiscomment.h"

#include <algorithm>
#include <cerrno>
#include <csignal>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <dirent.h>
#include <dlfcn.h>
#include <fcntl.h>
#include <filesystem>
#include <fstream>
#include <iostream>
#include <map>
#include <memory>
#include <sstream>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/uio.h>
#include <sys/wait.h>
#include <unistd.h>

using namespace TagParser;
using namespace CppUtilities;
using std::string;
using std::string_view;
using std::vector;

// ------------------------------------------------------------------ SHA-1
static string sha1hex(string_view data)
{
    std::uint32_t h[5] = { 0x67452301, 0xEFCDAB89, 0x98BADCFE, 0x10325476, 0xC3D2E1F0 };
    string m(data);
    const std::uint64_t bits = data.size() * 8ull;
    m.push_back('\x80');
    while (m.size() % 64 != 56) m.push_back('\0');
    for (int i = 7; i >= 0; --i) m.push_back(static_cast<char>(bits >> (8 * i)));
    auto rol = [](std::uint32_t v, int n) { return (v << n) | (v >> (32 - n)); };
    for (size_t c = 0; c < m.size(); c += 64) {
        std::uint32_t w[80];
        for (int i = 0; i < 16; ++i) {
            const auto *p = reinterpret_cast<const unsigned char *>(m.data() + c + i * 4);
            w[i] = (std::uint32_t(p[0]) << 24) | (std::uint32_t(p[1]) << 16) | (std::uint32_t(p[2]) << 8) | p[3];
        }
        for (int i = 16; i < 80; ++i) w[i] = rol(w[i - 3] ^ w[i - 8] ^ w[i - 14] ^ w[i - 16], 1);
        std::uint32_t a = h[0], b = h[1], cc = h[2], d = h[3], e = h[4];
        for (int i = 0; i < 80; ++i) {
            std::uint32_t f, k;
            if (i < 20) { f = (b & cc) | (~b & d); k = 0x5A827999; }
            else if (i < 40) { f = b ^ cc ^ d; k = 0x6ED9EBA1; }
            else if (i < 60) { f = (b & cc) | (b & d) | (cc & d); k = 0x8F1BBCDC; }
            else { f = b ^ cc ^ d; k = 0xCA62C1D6; }
            const auto t = rol(a, 5) + f + e + k + w[i];
            e = d; d = cc; cc = rol(b, 30); b = a; a = t;
        }
        h[0] += a; h[1] += b; h[2] += cc; h[3] += d; h[4] += e;
    }
    char buf[41];
    for (int i = 0; i < 5; ++i) snprintf(buf + i * 8, 9, "%08x", h[i]);
    return string(buf, 40);
}
static string tok(string_view d, size_t n = 10) { return sha1hex(d).substr(0, n); }
static string esc(string_view raw)
{
    string r;
    char b[8];
    for (unsigned char c : raw) {
        if (c >= 0x20 && c < 0x7F && c != 0x22 && c != 0x25 && c != 0x5C) r += static_cast<char>(c);
        else { snprintf(b, sizeof b, "%%%02X", c); r += b; }
    }
    if (r.size() > 200) r = r.substr(0, 40) + "..#" + std::to_string(raw.size()) + "#" + tok(raw);
    return r;
}
static string unesc(string_view s)
{
    string r;
    for (size_t i = 0; i < s.size(); ++i) {
        if (s[i] == '%' && i + 2 < s.size()) { r += static_cast<char>(std::stoi(string(s.substr(i + 1, 2)), nullptr, 16)); i += 2; }
        else r += s[i];
    }
    return r;
}
static string unhex(string_view s)
{
    string r;
    for (size_t i = 0; i + 1 < s.size(); i += 2) r += static_cast<char>(std::stoi(string(s.substr(i, 2)), nullptr, 16));
    return r;
}
static string hex(string_view s)
{
    static const char *const digits = "0123456789abcdef";
    string r;
    for (unsigned char c : s) { r += digits[c >> 4]; r += digits[c & 15]; }
    return r;
}
static vector<string> split(string_view s, char sep)
{
    vector<string> out(1);
    for (char c : s) if (c == sep) out.emplace_back(); else out.back() += c;
    return out;
}

// ------------------------------------------------------------------ JSON
struct J {
    string s;
    bool first = true;
    J &sep() { if (!first) s += ','; first = false; return *this; }
    J &key(string_view k) { sep(); s += '"'; s += k; s += "\":"; first = true; return *this; }
    J &str(string_view v) { sep(); s += '"'; s += esc(v); s += '"'; return *this; }
    J &raw(string_view v) { sep(); s += v; return *this; }
    J &num(long long v) { sep(); s += std::to_string(v); return *this; }
    J &boolean(bool v) { sep(); s += v ? "true" : "false"; return *this; }
    J &open(char c) { sep(); s += c; first = true; return *this; }
    J &close(char c) { s += c; first = false; return *this; }
    J &kv(string_view k, string_view v) { key(k); str(v); return *this; }
    J &kx(string_view k, string_view bytes) { key(k); sep(); s += '"'; s += hex(bytes); s += '"'; return *this; }
    J &kn(string_view k, long long v) { key(k); num(v); return *this; }
    J &kb(string_view k, bool v) { key(k); boolean(v); return *this; }
};

// ------------------------------------------------------------------ file system observation and fault injection
namespace Fs {
static string root;               // observed directory (with trailing slash); empty: not observing
static bool active = false;       // whether operations are recorded/faulted at the moment
static int counter = 0;           // number of mutating operations so far
static int failAt = -1;           // index of the mutating operation which is supposed to fail
static int failErr = EIO;
static int readCounter = 0, failReadAt = -1;
static bool sticky = false;       // all operations from failAt on fail
static bool shortWrite = false;   // the failing write writes half of its data first
static bool snapshots = false;    // record directory content after each operation
static int killAt = -1;           // exit the process right before the given mutating operation
static bool exdev = false;        // renames fail with EXDEV
static vector<string> log;
static std::map<int, string> fds;
static bool below(const char *p) { return active && p && !root.empty() && !strncmp(p, root.data(), root.size()); }
static string rel(const char *p) { return string(p).substr(root.size()); }
static string dirState()
{
    // path -> size:digest of every regular file below the root (raw system calls only)
    string out;
    std::function<void(const string &)> walk = [&](const string &d) {
        DIR *dir = opendir(d.data());
        if (!dir) return;
        vector<string> names;
        while (auto *e = readdir(dir)) if (strcmp(e->d_name, ".") && strcmp(e->d_name, "..")) names.emplace_back(e->d_name);
        closedir(dir);
        std::sort(names.begin(), names.end());
        for (auto &n : names) {
            struct stat st;
            const auto p = d + n;
            if (lstat(p.data(), &st)) continue;
            if (S_ISDIR(st.st_mode)) { walk(p + "/"); continue; }
            string content;
            int fd = static_cast<int>(syscall(SYS_openat, AT_FDCWD, p.data(), O_RDONLY, 0));
            if (fd >= 0) {
                content.resize(static_cast<size_t>(st.st_size));
                size_t off = 0;
                while (off < content.size()) {
                    auto r = syscall(SYS_read, fd, content.data() + off, content.size() - off);
                    if (r <= 0) break;
                    off += static_cast<size_t>(r);
                }
                syscall(SYS_close, fd);
            }
            out += (out.empty() ? "[\"" : ",[\"") + esc(p.substr(root.size())) + "\",\"" + std::to_string(content.size()) + ":" + tok(content) + "\"]";
        }
    };
    walk(root);
    return "[" + out + "]";
}
// returns whether the operation is supposed to fail
static bool step(const string &op)
{
    const int n = counter++;
    if (n == killAt) _exit(77);
    const bool fail = failAt >= 0 && (n == failAt || (sticky && n > failAt));
    log.push_back("{\"n\":" + std::to_string(n) + ",\"op\":\"" + op + "\",\"fail\":" + (fail ? "1" : "0"));
    return fail;
}
static void done()
{
    if (log.empty()) return;
    log.back() += ",\"dir\":" + (snapshots ? dirState() : string("[]")) + "}";
}
static void begin() { active = true; counter = 0; readCounter = 0; log.clear(); }
static void finish() { active = false; failAt = -1; failReadAt = -1; sticky = shortWrite = snapshots = exdev = false; killAt = -1; }
}

#ifndef NO_INTERPOSE
extern "C" {
static FILE *realFopen(const char *name, const char *path, const char *mode)
{
    using F = FILE *(*)(const char *, const char *);
    auto f = reinterpret_cast<F>(dlsym(RTLD_NEXT, name));
    return f(path, mode);
}
static FILE *myFopen(const char *name, const char *path, const char *mode)
{
    const bool below = Fs::below(path);
    const bool trunc = below && (strchr(mode, 'w') != nullptr);
    if (trunc && Fs::step("create " + esc(Fs::rel(path)))) { errno = Fs::failErr; Fs::done(); return nullptr; }
    FILE *r = realFopen(name, path, mode);
    if (trunc) Fs::done();
    if (r && !Fs::root.empty() && path && !strncmp(path, Fs::root.data(), Fs::root.size())) Fs::fds[fileno(r)] = Fs::rel(path);
    return r;
}
FILE *fopen(const char *path, const char *mode) { return myFopen("fopen", path, mode); }
FILE *fopen64(const char *path, const char *mode) { return myFopen("fopen64", path, mode); }
ssize_t write(int fd, const void *buf, size_t n)
{
    if (Fs::active && Fs::fds.count(fd)) {
        if (Fs::step("write " + esc(Fs::fds[fd]) + " " + std::to_string(n))) {
            if (Fs::shortWrite && n > 1) syscall(SYS_write, fd, buf, n / 2);
            errno = Fs::failErr; Fs::done(); return -1;
        }
        auto r = syscall(SYS_write, fd, buf, n);
        Fs::done();
        return r;
    }
    return syscall(SYS_write, fd, buf, n);
}
ssize_t writev(int fd, const struct iovec *iov, int cnt)
{
    if (Fs::active && Fs::fds.count(fd)) {
        size_t n = 0;
        for (int i = 0; i < cnt; ++i) n += iov[i].iov_len;
        if (Fs::step("write " + esc(Fs::fds[fd]) + " " + std::to_string(n))) {
            if (Fs::shortWrite) syscall(SYS_write, fd, iov[0].iov_base, iov[0].iov_len);
            errno = Fs::failErr; Fs::done(); return -1;
        }
        auto r = syscall(SYS_writev, fd, iov, cnt);
        Fs::done();
        return r;
    }
    return syscall(SYS_writev, fd, iov, cnt);
}
ssize_t read(int fd, void *buf, size_t n)
{
    if (Fs::active && Fs::fds.count(fd)) {
        const int k = Fs::readCounter++;
        if (k == Fs::failReadAt) { errno = EIO; return -1; }
    }
    return syscall(SYS_read, fd, buf, n);
}
int rename(const char *a, const char *b)
{
    if (Fs::below(a) || Fs::below(b)) {
        if (Fs::step("rename " + esc(Fs::rel(a)) + " " + esc(Fs::rel(b))) || Fs::exdev) { errno = Fs::exdev ? EXDEV : Fs::failErr; Fs::done(); return -1; }
        auto r = static_cast<int>(syscall(SYS_renameat2, AT_FDCWD, a, AT_FDCWD, b, 0));
        Fs::done();
        return r;
    }
    return static_cast<int>(syscall(SYS_renameat2, AT_FDCWD, a, AT_FDCWD, b, 0));
}
int remove(const char *p)
{
    if (Fs::below(p)) {
        if (Fs::step("remove " + esc(Fs::rel(p)))) { errno = Fs::failErr; Fs::done(); return -1; }
        auto r = static_cast<int>(syscall(SYS_unlinkat, AT_FDCWD, p, 0));
        if (r && errno == EISDIR) r = static_cast<int>(syscall(SYS_unlinkat, AT_FDCWD, p, AT_REMOVEDIR));
        Fs::done();
        return r;
    }
    auto r = static_cast<int>(syscall(SYS_unlinkat, AT_FDCWD, p, 0));
    if (r && errno == EISDIR) r = static_cast<int>(syscall(SYS_unlinkat, AT_FDCWD, p, AT_REMOVEDIR));
    return r;
}
int unlink(const char *p)
{
    if (Fs::below(p)) {
        if (Fs::step("remove " + esc(Fs::rel(p)))) { errno = Fs::failErr; Fs::done(); return -1; }
        auto r = static_cast<int>(syscall(SYS_unlinkat, AT_FDCWD, p, 0));
        Fs::done();
        return r;
    }
    return static_cast<int>(syscall(SYS_unlinkat, AT_FDCWD, p, 0));
}
static int myTruncate(const char *p, off_t n)
{
    if (Fs::below(p)) {
        if (Fs::step("truncate " + esc(Fs::rel(p)) + " " + std::to_string(n))) { errno = Fs::failErr; Fs::done(); return -1; }
        auto r = static_cast<int>(syscall(SYS_truncate, p, n));
        Fs::done();
        return r;
    }
    return static_cast<int>(syscall(SYS_truncate, p, n));
}
int truncate(const char *p, off_t n) noexcept { return myTruncate(p, n); }
int truncate64(const char *p, off64_t n) noexcept { return myTruncate(p, n); }
static int myOpen(const char *p, int flags, mode_t mode)
{
    const bool mut = Fs::below(p) && (((flags & O_TRUNC) && (flags & O_ACCMODE) != O_RDONLY) || ((flags & O_CREAT) && faccessat(AT_FDCWD, p, F_OK, AT_SYMLINK_NOFOLLOW)));
    if (mut && Fs::step("create " + esc(Fs::rel(p)))) { errno = Fs::failErr; Fs::done(); return -1; }
    const int r = static_cast<int>(syscall(SYS_openat, AT_FDCWD, p, flags, mode));
    if (mut) Fs::done();
    if (r >= 0) {
        if (!Fs::root.empty() && p && !strncmp(p, Fs::root.data(), Fs::root.size())) Fs::fds[r] = Fs::rel(p);
        else Fs::fds.erase(r);
    }
    return r;
}
int open(const char *p, int flags, ...)
{
    va_list ap; va_start(ap, flags); const auto mode = static_cast<mode_t>(va_arg(ap, int)); va_end(ap);
    return myOpen(p, flags, mode);
}
int open64(const char *p, int flags, ...)
{
    va_list ap; va_start(ap, flags); const auto mode = static_cast<mode_t>(va_arg(ap, int)); va_end(ap);
    return myOpen(p, flags | O_LARGEFILE, mode);
}
ssize_t sendfile(int out, int in, off_t *off, size_t n) noexcept
{
    const bool mut = Fs::active && Fs::fds.count(out);
    if (mut && Fs::step("write " + esc(Fs::fds[out]) + " " + std::to_string(n))) {
        if (Fs::shortWrite) syscall(SYS_sendfile, out, in, off, n / 2);
        errno = Fs::failErr; Fs::done(); return -1;
    }
    const auto r = static_cast<ssize_t>(syscall(SYS_sendfile, out, in, off, n));
    if (mut) Fs::done();
    return r;
}
ssize_t copy_file_range(int in, off64_t *io, int out, off64_t *oo, size_t n, unsigned int f)
{
    const bool mut = Fs::active && Fs::fds.count(out);
    if (mut && Fs::step("write " + esc(Fs::fds[out]) + " " + std::to_string(n))) { errno = Fs::failErr; Fs::done(); return -1; }
    const auto r = static_cast<ssize_t>(syscall(SYS_copy_file_range, in, io, out, oo, n, f));
    if (mut) Fs::done();
    return r;
}
}
#endif

// ------------------------------------------------------------------ values
static const char *typeNames[] = { "text", "int", "pos", "genre", "span", "date", "pic", "bin", "undef", "pop", "uint", "dtx" };
static string dumpText(const TagValue &v)
{
    switch (v.type()) {
    case TagDataType::Picture:
    case TagDataType::Binary:
    case TagDataType::Undefined:
        return std::to_string(v.dataSize()) + ":" + tok(string_view(v.dataPointer() ? v.dataPointer() : "", v.dataSize()));
    case TagDataType::Popularity: {
        const auto p = v.toPopularity();
        char b[64];
        snprintf(b, sizeof b, "|%g|%llu|%u", p.rating, static_cast<unsigned long long>(p.playCounter), static_cast<unsigned>(p.scale));
        return p.user + b;
    }
    case TagDataType::TimeSpan:
        return std::to_string(v.toTimeSpan().totalTicks());
    case TagDataType::Text:
        return v.toString(TagTextEncoding::Utf8);
    case TagDataType::StandardGenreIndex:
        return std::to_string(v.toStandardGenreIndex());
    default:
        return v.toString(TagTextEncoding::Utf8);
    }
}
static void dumpValue(J &j, const TagValue &v)
{
    // ["type", "text", "desc", "mime", "lang", enc]
    j.open('[');
    j.str(typeNames[static_cast<unsigned>(v.type())]);
    try { j.str(dumpText(v)); } catch (const ConversionException &) { j.str("!conversion"); } catch (const std::exception &e) { j.str(string("!") + e.what()); }
    string d = v.description();
    try {
        if (!d.empty() && v.descriptionEncoding() != TagTextEncoding::Utf8) {
            TagValue c(v);
            c.convertDescriptionEncoding(TagTextEncoding::Utf8);
            d = c.description();
        }
    } catch (const std::exception &) { d = "!conversion"; }
    j.str(d).str(v.mimeType()).str(v.locale().empty() ? string() : string(v.locale().someAbbreviatedName())).num(static_cast<int>(v.dataEncoding()));
    j.close(']');
}
static TagTextEncoding encOf(string_view s)
{
    if (s == "l1") return TagTextEncoding::Latin1;
    if (s == "u8") return TagTextEncoding::Utf8;
    if (s == "le") return TagTextEncoding::Utf16LittleEndian;
    if (s == "be") return TagTextEncoding::Utf16BigEndian;
    return TagTextEncoding::Unspecified;
}
// value syntax: kind~payload[~key=value]* with percent-encoded parts
static TagValue parseValue(string_view spec)
{
    auto parts = split(spec, '~');
    const auto kind = parts[0];
    const auto pay = parts.size() > 1 ? unesc(parts[1]) : string();
    TagValue v;
    if (kind == "null") {}
    else if (kind == "l1" || kind == "u8" || kind == "le" || kind == "be" || kind == "un") v.assignText(pay.data(), pay.size(), encOf(kind));   // payload: raw bytes
    else if (kind == "i") v.assignInteger(std::stoi(pay));
    else if (kind == "u") v.assignUnsignedInteger(std::stoull(pay));
    else if (kind == "p") { auto x = split(pay, '/'); v.assignPosition(PositionInSet(std::stoi(x[0]), std::stoi(x[1]))); }
    else if (kind == "g") v.assignStandardGenreIndex(std::stoi(pay));
    else if (kind == "ts") v.assignTimeSpan(TimeSpan(static_cast<std::int64_t>(std::stoll(pay))));
    else if (kind == "dt") v.assignDateTime(DateTime(static_cast<std::uint64_t>(std::stoull(pay))));
    else if (kind == "dti") v.assignDateTimeExpression(DateTimeExpression::fromIsoString(pay.data()));
    else if (kind == "pop") {
        auto x = split(pay, '|');
        Popularity p; p.user = x[0]; p.rating = std::stod(x[1]); p.playCounter = std::stoull(x[2]); p.scale = static_cast<TagType>(std::stoul(x[3]));
        v.assignPopularity(p);
    }
    else if (kind == "pic") { const auto d = unhex(pay); v.assignData(d.data(), d.size(), TagDataType::Picture); }
    else if (kind == "bin") { const auto d = unhex(pay); v.assignData(d.data(), d.size(), TagDataType::Binary); }
    else if (kind == "undef") { const auto d = unhex(pay); v.assignData(d.data(), d.size(), TagDataType::Undefined); }
    else if (kind == "raw") { auto x = split(pay, '|'); const auto d = unhex(x[1]); v.assignData(d.data(), d.size(), static_cast<TagDataType>(std::stoi(x[0]))); }
    else if (kind == "blob") { const string d(std::stoull(pay), '\x42'); v.assignData(d.data(), d.size(), TagDataType::Picture); }
    for (size_t i = 2; i < parts.size(); ++i) {
        auto eq = parts[i].find('=');
        const auto k = parts[i].substr(0, eq);
        const auto x = unesc(string_view(parts[i]).substr(eq + 1));
        if (k == "desc") v.setDescription(x, TagTextEncoding::Utf8);
        else if (k.size() == 6 && k.substr(0, 4) == "desc") v.setDescription(x, encOf(k.substr(4)));
        else if (k == "mime") v.setMimeType(x);
        else if (k == "lang") v.setLocale(Locale(string_view(x), LocaleFormat::ISO_639_2_B));
        else if (k == "bcp") v.locale().emplace_back(string_view(x), LocaleFormat::BCP_47);
        else if (k == "conv") v.convertDataEncoding(encOf(x));
        else if (k == "ro") v.setReadonly(true);
    }
    return v;
}
static TagTarget parseTarget(string_view s)
{
    // level/name/tracks/chapters/editions/attachments (lists separated by '+')
    auto x = split(s, '/');
    x.resize(6);
    TagTarget t(x[0].empty() ? 0 : std::stoull(x[0]));
    t.setLevelName(unesc(x[1]));
    auto ids = [](const string &l, TagTarget::IdContainerType &c) { if (!l.empty()) for (auto &e : split(l, '+')) c.push_back(std::stoull(e)); };
    ids(x[2], t.tracks()); ids(x[3], t.chapters()); ids(x[4], t.editions()); ids(x[5], t.attachments());
    return t;
}

// ------------------------------------------------------------------ scenario execution
static const char *statusNames[] = { "no", "ok", "unsupported", "failed" };
struct Ctx {
    string id, dir;
    std::unique_ptr<MediaFileInfo> obj;
    std::map<string, std::unique_ptr<Tag>> tags;      // standalone tags
    std::map<string, TagValue> vals;
    int outFd = 1, step = 0;
    string origin;                                     // digest of the original (for crash point evaluation)
};
static void emit(Ctx &c, J &j, const string &cmd)
{
    string line = "{\"s\":\"" + esc(c.id) + "\",\"i\":" + std::to_string(c.step) + ",\"cmd\":\"" + esc(cmd) + "\"" + (j.s.empty() ? "" : "," + j.s) + "}\n";
    size_t off = 0;
    while (off < line.size()) {
        auto r = syscall(SYS_write, c.outFd, line.data() + off, line.size() - off);
        if (r <= 0) _exit(70);
        off += static_cast<size_t>(r);
    }
}
static void dumpDiag(J &j, const Diagnostics &d)
{
    j.key("diag").open('[');
    for (const auto &m : d) j.open('[').num(static_cast<int>(m.level())).str(m.message()).close(']');
    j.close(']');
    j.kn("dl", static_cast<int>(d.level()));
}
template <typename F> static string guarded(F &&f)
{
    try { f(); return "ok"; }
    catch (const OperationAbortedException &) { return "aborted"; }
    catch (const TruncatedDataException &) { return "truncated"; }
    catch (const InvalidDataException &) { return "invalid"; }
    catch (const NoDataFoundException &) { return "nodata"; }
    catch (const NoDataProvidedException &) { return "nodataprovided"; }
    catch (const VersionNotSupportedException &) { return "version"; }
    catch (const NotImplementedException &) { return "notimplemented"; }
    catch (const Failure &) { return "failure"; }
    catch (const std::ios_base::failure &) { return "io"; }
    catch (const ConversionException &) { return "conversion"; }
    catch (const std::bad_alloc &) { return "!bad_alloc"; }
    catch (const std::exception &e) { return string("!") + e.what(); }
}
static Tag *findTag(Ctx &c, const string &sel)
{
    if (auto i = c.tags.find(sel); i != c.tags.end()) return i->second.get();
    if (!c.obj) return nullptr;
    const auto dot = sel.find('.');
    const auto kind = sel.substr(0, dot);
    const size_t n = dot == string::npos ? 0 : std::stoul(sel.substr(dot + 1));
    if (kind == "v1") return c.obj->id3v1Tag();
    if (kind == "v2") return n < c.obj->id3v2Tags().size() ? c.obj->id3v2Tags()[n].get() : nullptr;
    if (kind == "c") return c.obj->container() && n < c.obj->container()->tagCount() ? c.obj->container()->tag(n) : nullptr;
    if (kind == "vc") return c.obj->vorbisComment();
    if (kind == "t") { auto t = c.obj->tags(); return n < t.size() ? t[n] : nullptr; }
    return nullptr;
}
static string trim(string s) { return s; }
static void dumpFields(J &j, const Tag *tag)
{
    // known fields: [[field, has, [values...], single value]]
    j.key("known").open('[');
    for (auto f = firstKnownField; f != KnownField::Invalid; f = nextKnownField(f)) {
        const auto vals = tag->values(f);
        const auto &single = tag->value(f);
        const bool has = tag->hasField(f);
        if (!has && vals.empty() && single.isEmpty()) continue;
        j.open('[').num(static_cast<int>(f)).boolean(has).open('[');
        for (const auto *v : vals) dumpValue(j, *v);
        j.close(']');
        if (single.isEmpty()) j.open('[').close(']'); else dumpValue(j, single);
        j.close(']');
    }
    j.close(']');
    j.kn("count", static_cast<long long>(tag->fieldCount()));
}
static string targetStr(const TagTarget &t)
{
    string r = "level=" + std::to_string(t.level());
    if (!t.levelName().empty()) r += "|name=" + t.levelName();
    vector<string> ids;
    for (auto x : t.attachments()) ids.push_back("A=" + std::to_string(x));
    for (auto x : t.chapters()) ids.push_back("C=" + std::to_string(x));
    for (auto x : t.editions()) ids.push_back("E=" + std::to_string(x));
    for (auto x : t.tracks()) ids.push_back("T=" + std::to_string(x));
    std::sort(ids.begin(), ids.end());
    for (auto &i : ids) r += "|" + i;
    return r;
}
template <typename T> static void dumpNative(J &j, const T &tag)
{
    // native fields: [[id, [value...]]]
    j.key("native").open('[');
    for (const auto &f : tag.fields()) {
        if (f.second.value().isEmpty()) continue;
        j.open('[').str(f.second.idToString());
        dumpValue(j, f.second.value());
        j.close(']');
    }
    j.close(']');
}
static void dumpTag(J &j, const Tag *t)
{
    j.open('{');
    j.kv("type", t->typeName()).kn("tt", static_cast<int>(t->type())).kv("version", t->version()).kb("targets", t->supportsTarget());
    j.kv("target", t->supportsTarget() ? targetStr(t->target()) : string()).kn("size", static_cast<long long>(t->size()));
    if (auto *v2 = dynamic_cast<const Id3v2Tag *>(t)) { dumpNative(j, *v2); j.kn("major", v2->majorVersion()); }
    else if (auto *m4 = dynamic_cast<const Mp4Tag *>(t)) dumpNative(j, *m4);
    else if (auto *mk = dynamic_cast<const MatroskaTag *>(t)) dumpNative(j, *mk);
    else if (auto *vc = dynamic_cast<const VorbisComment *>(t)) { dumpNative(j, *vc); j.kv("vendor", vc->vendor().isEmpty() ? string() : vc->vendor().toString(TagTextEncoding::Utf8)); }
    else j.key("native").open('[').close(']');
    dumpFields(j, t);
    j.close('}');
}
static void dumpSpan(J &j, string_view k, TimeSpan t) { j.kv(k, std::to_string(t.totalTicks())); }
static void dumpChapter(J &j, const AbstractChapter *ch)
{
    j.open('{').kv("id", std::to_string(ch->id()));
    j.key("names").open('[');
    for (const auto &n : ch->names()) {
        j.open('[').str(n).open('[');
        for (const auto &l : n.locale()) j.str(l);
        j.close(']').close(']');
    }
    j.close(']');
    dumpSpan(j, "start", ch->startTime()); dumpSpan(j, "end", ch->endTime());
    j.key("tracks").open('['); for (auto t : ch->tracks()) j.str(std::to_string(t)); j.close(']');
    j.kb("hidden", ch->isHidden()).kb("enabled", ch->isEnabled());
    j.key("nested").open('[');
    for (size_t i = 0; i < ch->nestedChapterCount(); ++i) dumpChapter(j, ch->nestedChapter(i));
    j.close(']').close('}');
}
static void dumpInfo(J &j, MediaFileInfo &m, bool deep)
{
    j.kv("format", m.containerFormatName()).kv("abbrev", m.containerFormatAbbreviation()).kv("mime", m.mimeType()).kv("subversion", m.containerFormatSubversion());
    j.kn("offset", static_cast<long long>(m.containerOffset())).kn("padding", static_cast<long long>(m.paddingSize())).kn("effective", static_cast<long long>(m.effectiveSize())).kn("fsize", static_cast<long long>(m.size()));
    dumpSpan(j, "duration", m.duration());
    if (auto *c = m.container()) {
        j.key("container").open('{');
        j.kv("doctype", c->documentType()).kn("version", static_cast<long long>(c->version())).kn("docver", static_cast<long long>(c->doctypeVersion())).kn("docrver", static_cast<long long>(c->doctypeReadVersion()));
        j.key("titles").open('['); for (auto &t : c->titles()) j.str(t); j.close(']');
        const auto *cc = c;
        j.key("mux").open('['); for (auto &t : cc->muxingApplications()) j.str(t); j.close(']');
        j.key("wr").open('['); for (auto &t : cc->writingApplications()) j.str(t); j.close(']');
        j.kn("segments", static_cast<long long>(c->segmentCount()));
        dumpSpan(j, "duration", c->duration());
        j.kv("ctime", std::to_string(c->creationTime().totalTicks())).kv("mtime", std::to_string(c->modificationTime().totalTicks())).kn("timescale", c->timeScale());
        if (deep) {
            Diagnostics d;
            const auto pos = [&](auto f) { try { return static_cast<int>(f()); } catch (const Failure &) { return -1; } };
            j.kn("tagpos", pos([&] { return c->determineTagPosition(d); })).kn("idxpos", pos([&] { return c->determineIndexPosition(d); }));
        }
        j.close('}');
    }
    j.key("tracks").open('[');
    for (auto *t : m.tracks()) {
        j.open('{');
        j.kn("type", static_cast<int>(t->type())).kv("format", t->formatName()).kv("abbrev", t->formatAbbreviation()).kv("fid", t->formatId()).kv("media", t->mediaTypeName());
        j.kv("id", std::to_string(t->id())).kn("number", t->trackNumber()).kv("name", t->name()).kv("lang", t->locale().empty() ? string() : string(t->locale().someAbbreviatedName()));
        j.kv("size", std::to_string(t->size())); dumpSpan(j, "duration", t->duration());
        char b[64]; snprintf(b, sizeof b, "%.3f", t->bitrate()); j.kv("bitrate", b); snprintf(b, sizeof b, "%.3f", t->version()); j.kv("ver", b);
        j.kv("ctime", std::to_string(t->creationTime().totalTicks())).kv("mtime", std::to_string(t->modificationTime().totalTicks()));
        j.kn("rate", t->samplingFrequency()).kn("xrate", t->extensionSamplingFrequency()).kn("bps", t->bitsPerSample()).kn("ch", t->channelCount()).kn("chcfg", t->channelConfig()).kv("samples", std::to_string(t->sampleCount()));
        j.kn("w", t->pixelSize().width()).kn("h", t->pixelSize().height()).kn("dw", t->displaySize().width()).kn("dh", t->displaySize().height());
        j.kn("fps", t->fps()).kn("depth", t->depth()).kn("timescale", t->timeScale());
        j.kb("enabled", t->isEnabled()).kb("default", t->isDefault()).kb("forced", t->isForced()).kb("lacing", t->hasLacing()).kb("encrypted", t->isEncrypted()).kb("interlaced", t->isInterlaced()).kb("valid", t->isHeaderValid());
        j.close('}');
    }
    j.close(']');
    j.key("chapters").open('[');
    if (auto *mk = dynamic_cast<MatroskaContainer *>(m.container())) {
        for (const auto &e : mk->editionEntires()) {
            j.open('{').kv("edition", std::to_string(e->id())).kb("hidden", e->isHidden()).kb("default", e->isDefault()).kb("ordered", e->isOrdered());
            j.key("chs").open('[');
            for (const auto &ch : e->chapters()) dumpChapter(j, ch.get());
            j.close(']').close('}');
        }
    } else {
        for (auto *ch : m.chapters()) dumpChapter(j, ch);
    }
    j.close(']');
    j.kn("chaptercount", static_cast<long long>(m.chapters().size()));
    j.key("attachments").open('[');
    for (auto *a : m.attachments()) {
        j.open('{').kv("id", std::to_string(a->id())).kv("name", a->name()).kv("mime", a->mimeType()).kv("desc", a->description());
        string d = "none";
        if (a->data()) {
            if (m.isOpen()) {
                std::ostringstream os;
                a->data()->copyTo(os);
                d = std::to_string(os.str().size()) + ":" + tok(os.str());
            }
            j.kv("range", std::to_string(a->data()->startOffset()) + "-" + std::to_string(a->data()->endOffset()));
        }
        j.kv("data", d).close('}');
    }
    j.close(']');
    auto langs = m.availableLanguages(MediaType::Unknown);
    vector<string> ls(langs.begin(), langs.end());
    std::sort(ls.begin(), ls.end());
    j.key("langs").open('['); for (auto &l : ls) j.str(l); j.close(']');
    j.kb("supTracks", m.areTracksSupported()).kb("supTags", m.areTagsSupported()).kb("supChapters", m.areChaptersSupported()).kb("supAtt", m.areAttachmentsSupported());
}
static std::map<string, string> kvs(const vector<string> &a, size_t from)
{
    std::map<string, string> r;
    for (size_t i = from; i < a.size(); ++i) { auto e = a[i].find('='); r[a[i].substr(0, e)] = e == string::npos ? "1" : a[i].substr(e + 1); }
    return r;
}
static string readFile(const string &p)
{
    string r;
    int fd = static_cast<int>(syscall(SYS_openat, AT_FDCWD, p.data(), O_RDONLY, 0));
    if (fd < 0) return r;
    char buf[65536];
    for (;;) { auto n = syscall(SYS_read, fd, buf, sizeof buf); if (n <= 0) break; r.append(buf, static_cast<size_t>(n)); }
    syscall(SYS_close, fd);
    return r;
}
static void writeFile(const string &p, string_view d)
{
    int fd = static_cast<int>(syscall(SYS_openat, AT_FDCWD, p.data(), O_WRONLY | O_CREAT | O_TRUNC, 0644));
    size_t off = 0;
    while (fd >= 0 && off < d.size()) { auto n = syscall(SYS_write, fd, d.data() + off, d.size() - off); if (n <= 0) break; off += static_cast<size_t>(n); }
    if (fd >= 0) syscall(SYS_close, fd);
}
static vector<TagValue> parseValues(const vector<string> &a, size_t from)
{
    vector<TagValue> r;
    for (size_t i = from; i < a.size(); ++i) r.push_back(parseValue(a[i]));
    return r;
}
static std::unique_ptr<Tag> makeStandalone(const string &kind)
{
    if (kind == "id3v1") return std::make_unique<Id3v1Tag>();
    if (kind == "id3v2.2" || kind == "id3v2.3" || kind == "id3v2.4") { auto t = std::make_unique<Id3v2Tag>(); t->setVersion(static_cast<std::uint8_t>(kind.back() - '0'), 0); return t; }
    if (kind == "vorbis") return std::make_unique<VorbisComment>();
    if (kind == "mp4") return std::make_unique<Mp4Tag>();
    if (kind == "matroska") return std::make_unique<MatroskaTag>();
    return nullptr;
}

#include "cmds.inc"

int main(int argc, char **argv)
{
    // driver <script> <out> [timeout seconds per scenario]
    if (argc < 3) return 64;
    const int limit = argc > 3 ? atoi(argv[3]) : 20;
    setenv("TZ", "UTC", 1);
    std::ifstream script(argv[1]);
    const int out = open(argv[2], O_WRONLY | O_CREAT | O_TRUNC | O_APPEND, 0644);
    string line;
    vector<vector<string>> cmds;
    Ctx c;
    while (std::getline(script, line)) {
        vector<string> a;
        std::istringstream is(line);
        string t;
        while (is >> t) a.push_back(t);
        if (a.empty()) continue;
        if (a[0] == "scn") { c.id = unesc(a[1]); c.dir = a[2]; cmds.clear(); continue; }
        if (a[0] != "end") { cmds.push_back(a); continue; }
        const pid_t pid = fork();
        if (!pid) {
            c.outFd = out;
            struct itimerval tv {}; tv.it_value.tv_sec = limit * 4; setitimer(ITIMER_REAL, &tv, nullptr);
            struct rlimit cpu { static_cast<rlim_t>(limit), static_cast<rlim_t>(limit + 2) }; setrlimit(RLIMIT_CPU, &cpu);
            struct rlimit fsz { 1u << 28, 1u << 28 }; setrlimit(RLIMIT_FSIZE, &fsz);
            signal(SIGXFSZ, SIG_IGN);
#ifndef NO_INTERPOSE
            struct rlimit as { 3ull << 30, 3ull << 30 }; setrlimit(RLIMIT_AS, &as);
            int nul = open("/dev/null", O_WRONLY); dup2(nul, 1); dup2(nul, 2);
#else
            const auto errPath = c.dir + "/stderr.txt";
            int ef = open(errPath.data(), O_WRONLY | O_CREAT | O_TRUNC, 0644); dup2(ef, 1); dup2(ef, 2);
#endif
            c.step = 0;
            for (auto &a2 : cmds) { ++c.step; run(c, a2); }
            c.obj.reset();
            _exit(0);
        }
        int st = 0;
        struct rusage ru {};
        wait4(pid, &st, 0, &ru);
        J j;
        const char *end = WIFEXITED(st) ? (WEXITSTATUS(st) == 0 ? "clean" : WEXITSTATUS(st) == 77 ? "killed" : "exit") : "signal";
        j.kv("end", end).kn("code", WIFEXITED(st) ? WEXITSTATUS(st) : WTERMSIG(st)).kn("ms", ru.ru_utime.tv_sec * 1000 + ru.ru_utime.tv_usec / 1000 + ru.ru_stime.tv_sec * 1000 + ru.ru_stime.tv_usec / 1000).kn("kb", ru.ru_maxrss);
        c.outFd = out; c.step = 9999;
        emit(c, j, "exit");
    }
    close(out);
    return 0;
}
