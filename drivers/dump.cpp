// Runs the (instrumented) commsdsl parser on one case per fork and writes the whole
// public model as JSON. Serves cases from stdin, one per line, tab separated:
//   <out.json> <stderr file> <flags: m=multi schema> <extra prefixes ,> <file> [<file>...]
// and prints "<exit status> <signal>" per case.
#include "commsdsl/parse/ParseProtocol.h"
#include "commsdsl/parse/ParseSchema.h"
#include "commsdsl/parse/ParseNamespace.h"
#include "commsdsl/parse/ParseMessage.h"
#include "commsdsl/parse/ParseInterface.h"
#include "commsdsl/parse/ParseFrame.h"
#include "commsdsl/parse/ParseLayer.h"
#include "commsdsl/parse/ParseAlias.h"
#include "commsdsl/parse/ParseOptCond.h"
#include "commsdsl/parse/ParseIntField.h"
#include "commsdsl/parse/ParseEnumField.h"
#include "commsdsl/parse/ParseSetField.h"
#include "commsdsl/parse/ParseFloatField.h"
#include "commsdsl/parse/ParseBitfieldField.h"
#include "commsdsl/parse/ParseBundleField.h"
#include "commsdsl/parse/ParseStringField.h"
#include "commsdsl/parse/ParseDataField.h"
#include "commsdsl/parse/ParseListField.h"
#include "commsdsl/parse/ParseRefField.h"
#include "commsdsl/parse/ParseOptionalField.h"
#include "commsdsl/parse/ParseVariantField.h"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <iostream>
#include <sstream>
#include <vector>
#include <string>
#include <fcntl.h>
#include <sys/wait.h>
#include <sys/resource.h>
#include <unistd.h>

using namespace commsdsl::parse;

namespace
{
std::string out;
ParseProtocol* proto = nullptr;
int depth = 0;

void str(const std::string& s)
{
    out += '"';
    for (unsigned char c : s) {
        if ((c == '"') || (c == '\\')) { out += '\\'; out += static_cast<char>(c); }
        else if ((c < 0x20) || (c == 0x7f)) { char b[8]; std::snprintf(b, sizeof(b), "\\u%04x", c); out += b; } // bytes as latin-1
        else { out += static_cast<char>(c); }
    }
    out += '"';
}
bool first = true;
void sep() { if (!first) { out += ','; } first = false; }
void key(const char* k) { sep(); out += '"'; out += k; out += "\":"; }
void kv(const char* k, const std::string& v) { key(k); str(v); }
void kn(const char* k, long long v) { key(k); out += std::to_string(v); }
void ku(const char* k, unsigned long long v) { key(k); out += std::to_string(v); }
void kb(const char* k, bool v) { key(k); out += v ? "true" : "false"; }
void kd(const char* k, double v) { key(k); char b[64]; std::snprintf(b, sizeof(b), "\"%a\"", v); out += b; }
void open(char c) { out += c; first = true; }
void close(char c) { out += c; first = false; }
template <typename TF> void obj(const char* k, TF&& f) { key(k); open('{'); f(); close('}'); }
template <typename TF> void elem(TF&& f) { sep(); open('{'); f(); close('}'); }
template <typename TF> void arr(const char* k, TF&& f) { key(k); open('['); f(); close(']'); }
void estr(const std::string& s) { sep(); str(s); }

template <typename T> void extras(const T& x)
{
    if (!x.parseExtraAttributes().empty()) {
        arr("xattrs", [&]{ for (auto& a : x.parseExtraAttributes()) { estr(a.first); estr(a.second); } });
    }
    if (!x.parseExtraElements().empty()) {
        arr("xelems", [&]{ for (auto& a : x.parseExtraElements()) { estr(a); } });
    }
}

void cond(const ParseOptCond& c)
{
    if (c.parseKind() == ParseOptCond::ParseKind::Expr) {
        ParseOptCondExpr e(c);
        kv("l", e.parseLeft()); kv("op", e.parseOp()); kv("r", e.parseRight());
        auto info = [](const char* k, const ParseOptCondExpr::ParseOperandInfo& i)
        {
            obj(k, [&]{ ku("type", static_cast<unsigned>(i.m_type)); ku("mode", static_cast<unsigned>(i.m_mode)); kv("acc", i.m_access); });
        };
        info("li", e.parseLeftInfo()); info("ri", e.parseRightInfo());
        return;
    }
    ParseOptCondList l(c);
    kv("list", l.parseType() == ParseOptCondList::ParseType::And ? "and" : "or");
    arr("conds", [&]{ for (auto& s : l.parseConditions()) { elem([&]{ cond(s); }); } });
}
void kcond(const char* k, const ParseOptCond& c)
{
    if (!c.parseValid()) { return; }
    obj(k, [&]{ cond(c); });
}

template <typename T> void aliases(const T& list)
{
    if (list.empty()) { return; }
    arr("aliases", [&]{ for (auto& a : list) { elem([&]{ kv("name", a.parseName()); kv("desc", a.parseDescription()); kv("field", a.parseFieldName()); extras(a); }); } });
}

void field(const ParseField& f);
void kfield(const char* k, const ParseField& f)
{
    if (!f.parseValid()) { return; }
    obj(k, [&]{ field(f); });
}
template <typename T> void kfields(const char* k, const T& list)
{
    arr(k, [&]{ for (auto& f : list) { elem([&]{ field(f); }); } });
}
template <typename T> void vers(const T& i) { ku("since", i.m_sinceVersion); ku("depr", i.m_deprecatedSince); }

void field(const ParseField& f)
{
    if (++depth > 200) { std::cerr << "DUMP: too deep" << std::endl; std::_Exit(97); }
    static const char* Kinds[] = {"int", "enum", "set", "float", "bitfield", "bundle", "string", "data", "list", "ref", "optional", "variant"};
    auto kind = f.parseKind();
    kv("kind", Kinds[static_cast<unsigned>(kind)]);
    kv("name", f.parseName()); kv("disp", f.parseDisplayName()); kv("desc", f.parseDescription());
    ku("sem", static_cast<unsigned>(f.parseSemanticType()));
    ku("minLen", f.parseMinLength()); ku("maxLen", f.parseMaxLength()); ku("bitLen", f.parseBitLength());
    ku("since", f.parseSinceVersion()); ku("depr", f.parseDeprecatedSince()); kb("removed", f.parseIsDeprecatedRemoved());
    auto ext = f.parseExternalRef(true);
    kv("ext", ext); kv("extNs", f.parseExternalRef(false));
    if (!ext.empty()) {
        auto other = proto->parseFindField(ext);
        kb("found", other.parseValid() && (other.parseKind() == f.parseKind()) && (other.parseName() == f.parseName()) &&
                    (other.parseSchemaPos() == f.parseSchemaPos()) && (other.parseExternalRef(true) == ext));
    }
    kb("pseudo", f.parseIsPseudo()); kb("fixed", f.parseIsFixedValue()); kb("custom", f.parseIsCustomizable());
    kb("failInv", f.parseIsFailOnInvalid()); kb("forceGen", f.parseIsForceGen());
    kv("pos", f.parseSchemaPos());
    arr("ovr", [&]{
        for (auto o : {f.parseValueOverride(), f.parseReadOverride(), f.parseWriteOverride(), f.parseRefreshOverride(), f.parseLengthOverride(), f.parseValidOverride(), f.parseNameOverride()}) {
            sep(); out += std::to_string(static_cast<unsigned>(o));
        }});
    kv("copyCode", f.parseCopyCodeFrom());
    extras(f);
    switch (kind) {
    case ParseField::ParseKind::Int: {
        ParseIntField x(f);
        ku("type", static_cast<unsigned>(x.parseType())); ku("endian", x.parseEndian()); kn("serOffset", x.parseSerOffset());
        kn("min", x.parseMinValue()); kn("max", x.parseMaxValue()); kn("def", x.parseDefaultValue());
        arr("scaling", [&]{ sep(); out += std::to_string(x.parseScaling().first); sep(); out += std::to_string(x.parseScaling().second); });
        arr("ranges", [&]{ for (auto& r : x.parseValidRanges()) { elem([&]{ kn("min", r.m_min); kn("max", r.m_max); vers(r); }); } });
        arr("specials", [&]{ for (auto& r : x.parseSpecialValues()) { elem([&]{ kv("name", r.first); kn("val", r.second.m_value); vers(r.second); kv("desc", r.second.m_description); kv("disp", r.second.m_displayName); }); } });
        ku("units", static_cast<unsigned>(x.parseUnits())); kb("vcv", x.parseValidCheckVersion());
        ku("dispDec", x.parseDisplayDecimals()); kn("dispOff", x.parseDisplayOffset()); kb("signExt", x.parseSignExt()); kb("availLim", x.parseAvailableLengthLimit());
        break;
    }
    case ParseField::ParseKind::Enum: {
        ParseEnumField x(f);
        ku("type", static_cast<unsigned>(x.parseType())); ku("endian", x.parseEndian()); kn("def", x.parseDefaultValue());
        arr("values", [&]{ for (auto& r : x.parseValues()) { elem([&]{ kv("name", r.first); kn("val", r.second.m_value); vers(r.second); kv("desc", r.second.m_description); kv("disp", r.second.m_displayName); }); } });
        arr("rev", [&]{ for (auto& r : x.parseRevValues()) { sep(); out += std::to_string(r.first); estr(r.second); } });
        kb("nonUniq", x.parseIsNonUniqueAllowed()); kb("uniq", x.parseIsUnique()); kb("vcv", x.parseValidCheckVersion()); kb("hex", x.parseHexAssign()); kb("availLim", x.parseAvailableLengthLimit());
        break;
    }
    case ParseField::ParseKind::Set: {
        ParseSetField x(f);
        ku("type", static_cast<unsigned>(x.parseType())); ku("endian", x.parseEndian()); kb("defBit", x.parseDefaultBitValue()); kb("resBit", x.parseReservedBitValue());
        arr("bits", [&]{ for (auto& r : x.parseBits()) { elem([&]{ kv("name", r.first); ku("idx", r.second.m_idx); vers(r.second); kb("def", r.second.m_defaultValue); kb("res", r.second.m_reserved); kb("resVal", r.second.m_reservedValue); kv("desc", r.second.m_description); kv("disp", r.second.m_displayName); }); } });
        arr("rev", [&]{ for (auto& r : x.parseRevBits()) { sep(); out += std::to_string(r.first); estr(r.second); } });
        kb("nonUniq", x.parseIsNonUniqueAllowed()); kb("uniq", x.parseIsUnique()); kb("vcv", x.parseValidCheckVersion()); kb("availLim", x.parseAvailableLengthLimit());
        break;
    }
    case ParseField::ParseKind::Float: {
        ParseFloatField x(f);
        ku("type", static_cast<unsigned>(x.parseType())); ku("endian", x.parseEndian()); kd("def", x.parseDefaultValue());
        arr("ranges", [&]{ for (auto& r : x.parseValidRanges()) { elem([&]{ kd("min", r.m_min); kd("max", r.m_max); vers(r); }); } });
        arr("specials", [&]{ for (auto& r : x.parseSpecialValues()) { elem([&]{ kv("name", r.first); kd("val", r.second.m_value); vers(r.second); kv("desc", r.second.m_description); kv("disp", r.second.m_displayName); }); } });
        kb("vcv", x.parseValidCheckVersion()); ku("units", static_cast<unsigned>(x.parseUnits())); ku("dispDec", x.parseDisplayDecimals()); kb("nonUniqSpec", x.parseHasNonUniqueSpecials());
        break;
    }
    case ParseField::ParseKind::Bitfield: {
        ParseBitfieldField x(f);
        ku("endian", x.parseEndian()); kfields("members", x.parseMembers()); kcond("validCond", x.parseValidCond());
        break;
    }
    case ParseField::ParseKind::Bundle: {
        ParseBundleField x(f);
        kfields("members", x.parseMembers()); aliases(x.parseAliases()); kcond("validCond", x.parseValidCond());
        break;
    }
    case ParseField::ParseKind::String: {
        ParseStringField x(f);
        kv("def", x.parseDefaultValue()); kv("enc", x.parseEncodingStr()); ku("fixedLen", x.parseFixedLength());
        if (x.parseHasLengthPrefixField()) { kfield("lenPrefix", x.parseLengthPrefixField()); }
        kb("zeroTerm", x.parseHasZeroTermSuffix()); kv("detPrefix", x.parseDetachedPrefixFieldName());
        arr("valid", [&]{ for (auto& r : x.parseValidValues()) { elem([&]{ kv("val", r.m_value); vers(r); }); } });
        break;
    }
    case ParseField::ParseKind::Data: {
        ParseDataField x(f);
        auto hex = [](const std::vector<std::uint8_t>& v) { std::string s; char b[4]; for (auto c : v) { std::snprintf(b, sizeof(b), "%02x", c); s += b; } return s; };
        kv("def", hex(x.parseDefaultValue())); ku("fixedLen", x.parseFixedLength());
        if (x.parseHasLengthPrefixField()) { kfield("lenPrefix", x.parseLengthPrefixField()); }
        kv("detPrefix", x.parseDetachedPrefixFieldName());
        arr("valid", [&]{ for (auto& r : x.parseValidValues()) { elem([&]{ kv("val", hex(r.m_value)); vers(r); }); } });
        break;
    }
    case ParseField::ParseKind::List: {
        ParseListField x(f);
        kfield("element", x.parseElementField()); ku("count", x.parseFixedCount());
        if (x.parseHasCountPrefixField()) { kfield("countPrefix", x.parseCountPrefixField()); }
        kv("detCount", x.parseDetachedCountPrefixFieldName());
        if (x.parseHasLengthPrefixField()) { kfield("lenPrefix", x.parseLengthPrefixField()); }
        kv("detLen", x.parseDetachedLengthPrefixFieldName());
        if (x.parseHasElemLengthPrefixField()) { kfield("elemLenPrefix", x.parseElemLengthPrefixField()); }
        kv("detElemLen", x.parseDetachedElemLengthPrefixFieldName());
        kb("elemFixed", x.parseElemFixedLength());
        if (x.parseHasTermSuffixField()) { kfield("term", x.parseTermSuffixField()); }
        kv("detTerm", x.parseDetachedTermSuffixFieldName());
        break;
    }
    case ParseField::ParseKind::Ref: {
        ParseRefField x(f);
        auto t = x.parseField();
        kv("target", t.parseExternalRef(true)); ku("targetMin", t.parseMinLength());
        break;
    }
    case ParseField::ParseKind::Optional: {
        ParseOptionalField x(f);
        ku("mode", static_cast<unsigned>(x.parseDefaultMode())); kfield("field", x.parseField()); kcond("cond", x.parseCond());
        kb("missReadFail", x.parseMissingOnReadFail()); kb("missInvalid", x.parseMissingOnInvalid());
        break;
    }
    case ParseField::ParseKind::Variant: {
        ParseVariantField x(f);
        kfields("members", x.parseMembers()); kn("defIdx", static_cast<long long>(x.parseDefaultMemberIdx()));
        break;
    }
    default:
        kv("bad", "kind");
        break;
    }
    --depth;
}

void message(const ParseMessage& m)
{
    kv("name", m.parseName()); kv("disp", m.parseDisplayName()); kv("desc", m.parseDescription());
    ku("id", m.parseId()); ku("order", m.parseOrder()); ku("minLen", m.parseMinLength()); ku("maxLen", m.parseMaxLength());
    ku("since", m.parseSinceVersion()); ku("depr", m.parseDeprecatedSince()); kb("removed", m.parseIsDeprecatedRemoved());
    kv("ext", m.parseExternalRef(true)); kv("extNs", m.parseExternalRef(false));
    kb("custom", m.parseIsCustomizable()); kb("failInv", m.parseIsFailOnInvalid()); ku("sender", static_cast<unsigned>(m.parseSender()));
    arr("ovr", [&]{
        for (auto o : {m.parseReadOverride(), m.parseWriteOverride(), m.parseRefreshOverride(), m.parseLengthOverride(), m.parseValidOverride(), m.parseNameOverride()}) {
            sep(); out += std::to_string(static_cast<unsigned>(o));
        }});
    kv("copyCode", m.parseCopyCodeFrom());
    kcond("construct", m.parseConstruct()); kcond("readCond", m.parseReadCond()); kcond("validCond", m.parseValidCond());
    arr("platforms", [&]{ for (auto& p : m.parsePlatforms()) { estr(p); } });
    aliases(m.parseAliases());
    extras(m);
    kfields("fields", m.parseFields());
}

void layer(const ParseLayer& l)
{
    static const char* Kinds[] = {"custom", "sync", "size", "id", "value", "payload", "checksum"};
    kv("kind", Kinds[static_cast<unsigned>(l.parseKind())]);
    kv("name", l.parseName()); kv("disp", l.parseDisplayName()); kv("desc", l.parseDescription());
    extras(l);
    if (l.parseHasField()) { kfield("field", l.parseField()); }
    switch (l.parseKind()) {
    case ParseLayer::ParseKind::Custom: {
        ParseCustomLayer x(l);
        ku("semLayer", static_cast<unsigned>(x.parseSemanticLayerType())); kv("from", x.parseChecksumFromLayer()); kv("until", x.parseChecksumUntilLayer());
        break;
    }
    case ParseLayer::ParseKind::Sync: {
        ParseSyncLayer x(l);
        kb("seek", x.parseSeekField()); if (x.parseHasEscField()) { kfield("esc", x.parseEscField()); }
        kv("from", x.parseFromLayer()); kb("vbr", x.parseVerifyBeforeRead()); kb("after", x.parseIsAfterPayload());
        break;
    }
    case ParseLayer::ParseKind::Checksum: {
        ParseChecksumLayer x(l);
        ku("alg", static_cast<unsigned>(x.parseAlg())); kv("customAlg", x.parseCustomAlgName()); kv("from", x.parseFromLayer()); kv("until", x.parseUntilLayer()); kb("vbr", x.parseVerifyBeforeRead());
        break;
    }
    case ParseLayer::ParseKind::Value: {
        ParseValueLayer x(l);
        arr("ifaces", [&]{ for (auto& i : x.parseInterfaces()) { estr(i.parseExternalRef(true)); } });
        kv("fieldName", x.parseFieldName()); ku("fieldIdx", x.parseFieldIdx()); kb("pseudo", x.parsePseudo());
        break;
    }
    default:
        break;
    }
}

void ns(const ParseNamespace& n)
{
    kv("name", n.parseName()); kv("disp", n.parseDisplayName()); kv("desc", n.parseDescription());
    kv("ext", n.parseExternalRef(true)); kv("extNs", n.parseExternalRef(false)); kb("hasMsgs", n.parseHasMessages());
    extras(n);
    arr("namespaces", [&]{ for (auto& s : n.parseNamespaces()) { elem([&]{ ns(s); }); } });
    kfields("fields", n.parseFields());
    arr("messages", [&]{ for (auto& m : n.parseMessages()) { elem([&]{ message(m); }); } });
    arr("interfaces", [&]{ for (auto& i : n.parseInterfaces()) { elem([&]{
        kv("name", i.parseName()); kv("desc", i.parseDescription()); kv("ext", i.parseExternalRef(true)); kv("extNs", i.parseExternalRef(false)); kv("copyCode", i.parseCopyCodeFrom());
        aliases(i.parseAliases()); extras(i); kfields("fields", i.parseFields()); }); } });
    arr("frames", [&]{ for (auto& f : n.parseFrames()) { elem([&]{
        kv("name", f.parseName()); kv("disp", f.parseDisplayName()); kv("desc", f.parseDescription()); kv("ext", f.parseExternalRef(true)); kv("extNs", f.parseExternalRef(false));
        extras(f); arr("layers", [&]{ for (auto& l : f.parseLayers()) { elem([&]{ layer(l); }); } }); }); } });
}

void schema(const ParseSchema& s)
{
    kv("name", s.parseName()); kv("disp", s.parseDisplayName()); kv("desc", s.parseDescription());
    ku("id", s.parseId()); ku("version", s.parseVersion()); ku("dsl", s.parseDslVersion()); ku("endian", s.parseEndian());
    kb("nonUniqMsgId", s.parseNonUniqueMsgIdAllowed()); kv("ext", s.parseExternalRef());
    arr("platforms", [&]{ for (auto& p : s.parsePlatforms()) { estr(p); } });
    extras(s);
    arr("namespaces", [&]{ for (auto& n : s.parseNamespaces()) { elem([&]{ ns(n); }); } });
    arr("all", [&]{ for (auto& m : s.parseAllMessages()) { estr(m.parseExternalRef(true)); } });
}

int doCase(const std::vector<std::string>& args)
{
    ParseProtocol p;
    proto = &p;
    std::vector<std::pair<unsigned, std::string>> log;
    p.parseSetErrorReportCallback([&log](ParseErrorLevel l, const std::string& m) { log.emplace_back(static_cast<unsigned>(l), m); });
    if (args[2].find('m') != std::string::npos) { p.parseSetMultipleSchemasEnabled(true); }
    std::istringstream pre(args[3]);
    std::string pr;
    while (std::getline(pre, pr, ',')) { if (!pr.empty()) { p.parseAddExpectedExtraPrefix(pr); } }
    bool ok = true;
    std::string stage = "done";
    for (std::size_t i = 4; ok && (i < args.size()); ++i) {
        ok = p.parse(args[i]);
        if (!ok) { stage = "parse"; }
    }
    if (ok) {
        ok = p.parseValidate();
        if (!ok) { stage = "validate"; }
    }
    first = true;
    open('{');
    kb("ok", ok); kv("stage", stage);
    arr("log", [&]{ for (auto& l : log) { sep(); out += std::to_string(l.first); estr(l.second); } });
    if (ok) {
        arr("schemas", [&]{ for (auto& s : p.parseSchemas()) { elem([&]{ schema(s); }); } });
    }
    close('}');
    std::ofstream f(args[0]);
    f << out;
    f.close();
    return f ? 0 : 98;
}
} // namespace

int main(int argc, char** argv)
{
    if (argc > 1) {
        std::vector<std::string> a(argv + 1, argv + argc);
        return doCase(a);
    }
    std::string line;
    while (std::getline(std::cin, line)) {
        std::vector<std::string> a;
        std::istringstream s(line);
        std::string w;
        while (std::getline(s, w, '\t')) { a.push_back(w); }
        auto pid = fork();
        if (pid == 0) {
            int fd = ::open(a[1].c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644);
            dup2(fd, 2); dup2(fd, 1);
            struct rlimit rl = {60, 60};
            setrlimit(RLIMIT_CPU, &rl);
            std::_Exit(doCase(a));
        }
        int st = 0;
        waitpid(pid, &st, 0);
        std::cout << (WIFEXITED(st) ? WEXITSTATUS(st) : -1) << ' ' << (WIFSIGNALED(st) ? WTERMSIG(st) : 0) << std::endl;
    }
    return 0;
}
