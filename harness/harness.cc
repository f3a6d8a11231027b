// Driver of lttoolbox's library interface: reads commands, one per line, fields separated by tabs, and prints
// one line of answer for each.  Strings are written as code points in decimal, separated by spaces.
#include <lttoolbox/fst_processor.h>
#include <lttoolbox/alphabet.h>
#include <lttoolbox/compression.h>
#include <lttoolbox/transducer.h>
#include <lttoolbox/lt_locale.h>
#include <lttoolbox/serialiser.h>
#include <lttoolbox/deserialiser.h>
#include <lttoolbox/pattern_list.h>
#include <lttoolbox/match_exe.h>
#include <lttoolbox/match_state.h>
#include <memory>
#include <cstdio>
#include <lttoolbox/string_utils.h>
#include <lttoolbox/stream_reader.h>
#include <cstring>
#include <iostream>
#include <sstream>
#include <string>
#include <vector>

static UString ustr(const std::string &s)
{
  std::istringstream is(s);
  UString r;
  long c;
  while (is >> c) {
    if (c > 0xFFFF) {
      r.push_back(static_cast<UChar>(0xD800 + ((c - 0x10000) >> 10)));
      r.push_back(static_cast<UChar>(0xDC00 + (c & 0x3FF)));
    } else {
      r.push_back(static_cast<UChar>(c));
    }
  }
  return r;
}
static std::string show(const UString &u)
{
  std::ostringstream os;
  for (size_t i = 0; i < u.size(); i++) {
    long c = u[i];
    if (c >= 0xD800 && c < 0xDC00 && i + 1 < u.size() && u[i + 1] >= 0xDC00 && u[i + 1] < 0xE000) {
      c = 0x10000 + ((c - 0xD800) << 10) + (u[++i] - 0xDC00);
    }
    if (os.tellp() > 0) os << ' ';
    os << c;
  }
  return os.str();
}
static std::vector<std::string> split(const std::string &s, char sep)
{
  std::vector<std::string> r(1);
  for (char c : s) {
    if (c == sep) r.emplace_back();
    else r.back() += c;
  }
  return r;
}
static std::string hex(const std::string &s)
{
  std::ostringstream os;
  for (unsigned char c : s) os << (os.tellp() > 0 ? " " : "") << int(c);
  return os.str();
}
template <typename F> static std::string tofile(F f)
{
  char *buf = nullptr;
  size_t n = 0;
  FILE *o = open_memstream(&buf, &n);
  f(o);
  fclose(o);
  std::string r(buf, n);
  free(buf);
  return r;
}
static FILE *fromfile(const std::string &s)
{
  FILE *f = tmpfile();
  fwrite(s.data(), 1, s.size(), f);
  rewind(f);
  return f;
}

static void lookups(int argc, char **argv)
{
  // lookups FILE bil|ana cs w W N L
  FSTProcessor p;
  p.setCaseSensitiveMode(argv[4][0] == '1');
  p.setDictionaryCaseMode(argv[5][0] == '1');
  p.setDisplayWeightsMode(argv[6][0] == '1');
  p.setMaxAnalysesValue(atoi(argv[7]));
  p.setMaxWeightClassesValue(atoi(argv[8]));
  FILE *f = fopen(argv[2], "rb");
  p.load(f);
  fclose(f);
  if (!strcmp(argv[3], "bil")) p.initBiltrans();
  else p.initAnalysis();
  std::string line;
  while (std::getline(std::cin, line)) {
    auto x = split(line, '\t');
    UString w = ustr(x[2]);
    bool d = x[1] == "1";
    if (x[0] == "biltrans") std::cout << show(p.biltrans(w, d)) << "\n";
    else if (x[0] == "queue") {
      auto r = p.biltransWithQueue(w, d);
      std::cout << show(r.first) << "\t" << r.second << "\n";
    }
    else if (x[0] == "noqueue") std::cout << show(p.biltransWithoutQueue(w, d)) << "\n";
    else if (x[0] == "lookup") {
      std::vector<UString> r;
      bool ok = p.lookup(w, r);
      std::cout << (ok ? 1 : 0);
      for (auto &it : r) std::cout << "\t" << show(it);
      std::cout << "\n";
    }
    std::cout.flush();
  }
}

static void coding()
{
  std::string line;
  while (std::getline(std::cin, line)) {
    auto x = split(line, '\t');
    if (x[0] == "int") {
      unsigned v = std::stoul(x[1]);
      std::string a = tofile([&](FILE *o) { Compression::multibyte_write(v, o); });
      std::ostringstream os;
      Compression::multibyte_write(v, os);
      FILE *i = fromfile(a + "\x7f");
      unsigned r1 = Compression::multibyte_read(i);
      int next = fgetc(i);
      fclose(i);
      std::istringstream is(os.str() + "\x7f");
      unsigned r2 = Compression::multibyte_read(is);
      std::cout << hex(a) << "\t" << hex(os.str()) << "\t" << r1 << "\t" << r2 << "\t" << (next == 0x7f && is.get() == 0x7f) << "\n";
    } else if (x[0] == "double") {
      double v = strtod(x[1].c_str(), nullptr);
      std::string a = tofile([&](FILE *o) { Compression::long_multibyte_write(v, o); });
      std::ostringstream os;
      Compression::long_multibyte_write(v, os);
      FILE *i = fromfile(a + "\x7f");
      double r1 = Compression::long_multibyte_read(i);
      int next = fgetc(i);
      fclose(i);
      std::istringstream is(os.str() + "\x7f");
      double r2 = Compression::long_multibyte_read(is);
      char b1[64], b2[64];
      snprintf(b1, 64, "%.17g", r1);
      snprintf(b2, 64, "%.17g", r2);
      std::cout << hex(a) << "\t" << hex(os.str()) << "\t" << b1 << "\t" << b2 << "\t" << (next == 0x7f && is.get() == 0x7f) << "\n";
    } else if (x[0] == "string") {
      UString v = ustr(x[1]);
      std::string a = tofile([&](FILE *o) { Compression::string_write(v, o); });
      FILE *i = fromfile(a + "\x7f");
      UString r = Compression::string_read(i);
      int next = fgetc(i);
      fclose(i);
      std::cout << hex(a) << "\t" << show(r) << "\t" << (next == 0x7f) << "\n";
    } else if (x[0] == "ser") {
      // ser TYPE VALUE: serialised bytes and the value read back
      std::ostringstream os;
      std::string back;
      if (x[1] == "i32") {
        Serialiser<int32_t>::serialise(std::stol(x[2]), os);
        std::istringstream is(os.str());
        back = std::to_string(Deserialiser<int32_t>::deserialise(is));
      } else if (x[1] == "u64") {
        Serialiser<uint64_t>::serialise(std::stoull(x[2]), os);
        std::istringstream is(os.str());
        back = std::to_string(Deserialiser<uint64_t>::deserialise(is));
      } else if (x[1] == "str") {
        Serialiser<UString>::serialise(ustr(x[2]), os);
        std::istringstream is(os.str());
        back = show(Deserialiser<UString>::deserialise(is));
      } else if (x[1] == "double") {
        Serialiser<double>::serialise(strtod(x[2].c_str(), nullptr), os);
        std::istringstream is(os.str());
        char b[64];
        snprintf(b, 64, "%.17g", Deserialiser<double>::deserialise(is));
        back = b;
      }
      std::cout << hex(os.str()) << "\t" << back << "\n";
    } else if (x[0] == "alphabet") {
      // alphabet HOW TAG|TAG|... L,R|L,R...: numbers of the tags and codes of the pairs, before and after
      Alphabet a;
      std::vector<UString> tags;
      if (!x[2].empty()) for (auto &t : split(x[2], '|')) tags.push_back(ustr(t));
      std::vector<std::pair<int32_t, int32_t>> pairs;
      if (!x[3].empty()) for (auto &p : split(x[3], '|')) {
        auto q = split(p, ',');
        pairs.push_back({std::stol(q[0]), std::stol(q[1])});
      }
      for (auto &t : tags) a.includeSymbol(t);
      for (auto &p : pairs) a(p.first, p.second);
      auto dump = [&](Alphabet &b) {
        std::cout << b.size() << ":";
        for (auto &t : tags) {
          int32_t n = b(t);
          UString s;
          if (n < 0 && n >= -b.size()) b.getSymbol(s, n);
          std::cout << n << "=" << show(s) << "|";
        }
        std::cout << ":";
        for (auto &p : pairs) {
          int32_t n = b(p.first, p.second);
          auto q = b.decode(n);
          std::cout << n << "=" << q.first << "," << q.second << "|";
        }
      };
      dump(a);
      std::cout << "\t";
      Alphabet b;
      std::string s;
      if (x[1] == "file") {
        s = tofile([&](FILE *o) { a.write(o); });
        FILE *i = fromfile(s);
        b.read(i);
        fclose(i);
      } else {
        std::ostringstream os;
        a.serialise(os);
        std::istringstream is(os.str());
        b.deserialise(is);
      }
      dump(b);
      std::cout << "\t" << hex(s) << "\n";
    }
    std::cout.flush();
  }
}

// ---- the algebra of transducers: registers, each with an alphabet of its own --------------------------------
struct Reg { Alphabet a; Transducer t; };

// tags are <t1>, <t2>, ...; outside they are -1, -2, ...
static UString tagname(int k)
{
  UString s = "<t"_u;
  for (char c : std::to_string(-k)) s += static_cast<UChar>(c);
  return s + ">"_u;
}
static int code(Alphabet &a, long s)
{
  if (s >= 0) return s;
  UString n = tagname(s);
  a.includeSymbol(n);
  return a(n);
}
static int pair_of(Alphabet &a, const std::string &l, const std::string &r)
{
  int x = code(a, std::stol(l));
  int y = code(a, std::stol(r));
  return a(x, y);
}
static long outside(Alphabet &a, int s)
{
  if (s >= 0) return s;
  UString n;
  a.getSymbol(n, s);
  long v = 0;
  for (auto c : n) if (c >= '0' && c <= '9') v = v * 10 + (c - '0');
  return -v;
}
static std::string num(double d)
{
  char b[64];
  snprintf(b, 64, "%.6g", d);
  return b;
}
static std::string dump(Reg &g)
{
  std::ostringstream os;
  os << g.t.getInitial() << "\t";
  for (auto &it : g.t.getFinals()) os << it.first << "," << num(it.second) << "|";
  os << "\t";
  for (auto &it : g.t.getTransitions())
    for (auto &it2 : it.second) {
      auto p = g.a.decode(it2.first);
      os << it.first << "," << it2.second.first << "," << outside(g.a, p.first) << "," << outside(g.a, p.second) << "," << num(it2.second.second) << "|";
    }
  os << "\t" << g.t.size() << "\t" << g.t.numberOfTransitions() << "\t" << g.t.hasNoFinals() << "\t" << g.t.weighted();
  return os.str();
}
static void algebra()
{
  std::vector<Reg> r(16);
  std::string line;
  while (std::getline(std::cin, line)) {
    auto x = split(line, '\t');
    auto &dst = r[std::stol(x[1])];
    if (x[0] == "new") {
      // new R N TAGS ARCS FINALS
      Reg g;
      for (auto &t : split(x[3], '|')) if (!t.empty()) code(g.a, std::stol(t));
      while (g.t.size() < std::stol(x[2])) g.t.insertNewSingleTransduction(0, 0);
      for (auto &it : g.t.getTransitions()) it.second.clear();
      for (auto &s : split(x[4], '|')) {
        if (s.empty()) continue;
        auto q = split(s, ',');
        g.t.linkStates(std::stol(q[0]), std::stol(q[1]), pair_of(g.a, q[2], q[3]), strtod(q[4].c_str(), nullptr));
      }
      for (auto &s : split(x[5], '|')) {
        if (s.empty()) continue;
        auto q = split(s, ',');
        g.t.setFinal(std::stol(q[0]), strtod(q[1].c_str(), nullptr));
      }
      dst = g;
    } else if (x[0] == "seqs") {
      // seqs R SEQ;SEQ;...  items of a sequence: l,r,w or @S, separated by |
      Reg g;
      for (auto &sq : split(x[2], ';')) {
        int state = g.t.getInitial();
        for (auto &it : split(sq, '|')) {
          if (it[0] == '@') {
            Reg o = r[std::stol(it.substr(1))];
            o.t.updateAlphabet(o.a, g.a);
            state = g.t.insertTransducer(state, o.t);
          } else {
            auto q = split(it, ',');
            // an arc with the empty pair would be shared with the one into an automaton inserted at the same state
            int p = pair_of(g.a, q[0], q[1]);
            double w = strtod(q[2].c_str(), nullptr);
            state = p == 0 ? g.t.insertNewSingleTransduction(p, state, w) : g.t.insertSingleTransduction(p, state, w);
          }
        }
        g.t.setFinal(state);
      }
      dst = g;
    } else if (x[0] == "union") {
      Reg g = r[std::stol(x[2])], o = r[std::stol(x[3])];
      o.t.updateAlphabet(o.a, g.a);
      g.t.unionWith(g.a, o.t);
      dst = g;
    } else {
      Reg g = r[std::stol(x[2])];
      if (x[0] == "det") g.t.determinize();
      else if (x[0] == "min") g.t.minimize();
      else if (x[0] == "rev") g.t.reverse();
      else if (x[0] == "join") g.t.joinFinals();
      else if (x[0] == "opt") g.t.optional();
      else if (x[0] == "plus") g.t.oneOrMore();
      else if (x[0] == "star") g.t.zeroOrMore();
      else if (x[0] == "invert") g.t.invert(g.a);
      else if (x[0] == "copy") {
        Transducer t(g.t);
        g.t = t;
        g.t = g.t;
      } else if (x[0] == "wr") {
        std::string s = tofile([&](FILE *o) { g.a.write(o); g.t.write(o, g.a.size()); });
        Reg g2;
        FILE *i = fromfile(s);
        g2.a.read(i);
        g2.t.read(i, g2.a.size());
        fclose(i);
        g = g2;
      } else if (x[0] == "ser") {
        std::ostringstream os;
        g.a.serialise(os);
        g.t.serialise(os);
        std::istringstream is(os.str());
        Reg g2;
        g2.a.deserialise(is);
        g2.t.deserialise(is);
        g = g2;
      } else if (x[0] == "realpha") {
        Reg g2;
        for (auto &t : split(x[3], '|')) if (!t.empty()) code(g2.a, std::stol(t));
        g2.t = g.t;
        g2.t.updateAlphabet(g.a, g2.a);
        g = g2;
      } else if (x[0] == "del" || x[0] == "eps") {
        sorted_vector<int32_t> syms;
        for (auto &s : split(x[3], '|')) {
          auto q = split(s, ',');
          syms.insert(pair_of(g.a, q[0], q[1]));
        }
        if (x[0] == "del") g.t.deleteSymbols(syms);
        else g.t.epsilonizeSymbols(syms);
      }
      dst = g;
    }
    std::cout << dump(dst) << std::endl;
  }
}

// pattern lists: a session of insertions, then words to classify.  Tags are given by their names.
static void patterns(const std::string &how)
{
  PatternList first, *pl = &first;
  PatternList other;
  std::unique_ptr<MatchExe> me;
  std::string line;
  while (std::getline(std::cin, line)) {
    auto x = split(line, '\t');
    if (x[0] == "insert") {
      pl->insert(std::stol(x[1]), ustr(x[2]), ustr(x[3]));
    } else if (x[0] == "label") {
      pl->insert(std::stol(x[1]), std::stol(x[2]));
    } else if (x[0] == "begin") {
      pl->beginSequence();
    } else if (x[0] == "end") {
      pl->endSequence();
    } else if (x[0] == "build") {
      if (how == "copy") {
        other = *pl;
        pl = &other;
      }
      pl->buildTransducer();
      if (how == "file") {
        FILE *i = fromfile(tofile([&](FILE *o) { pl->write(o); }));
        other.read(i);
        fclose(i);
        pl = &other;
      } else if (how == "stream") {
        std::ostringstream os;
        pl->serialise(os);
        std::istringstream is(os.str());
        other.deserialise(is);
        pl = &other;
      }
      me.reset(pl->newMatchExe());
    } else {
      // word <banned ids> <symbols: code points and names in angle brackets>
      std::set<int> banned;
      std::istringstream bs(x[1]);
      for (int b; bs >> b;) banned.insert(b);
      const Alphabet &a = pl->getAlphabet();
      int any_char = a(PatternList::ANY_CHAR), any_tag = a(PatternList::ANY_TAG);
      MatchState ms;
      ms.init(me->getInitial());
      std::istringstream ws(x[2]);
      for (std::string y; ws >> y;) {
        if (y[0] == '<') {
          UString t = to_ustring(y.c_str());
          if (a.isSymbolDefined(t)) ms.step(a(t), any_tag);
          else ms.step(any_tag);
        } else {
          ms.step(std::stol(y), any_char);
        }
        if (how == "copy") {
          MatchState m2(ms);
          MatchState m3;
          m3 = m2;
          ms.clear();
          ms = m3;
        }
      }
      int c = banned.empty() ? ms.classifyFinals(me->getFinals()) : ms.classifyFinals(me->getFinals(), banned);
      std::cout << c << std::endl;
    }
  }
}

// op <a> <b> <c> -> pieces separated by | (each a list of code points)
static void strings()
{
  std::string line;
  while (std::getline(std::cin, line)) {
    auto x = split(line, '\t');
    const std::string &op = x[0];
    UString a = ustr(x[1]), b = ustr(x[2]), c = ustr(x[3]);
    std::vector<UString> r;
    if (op == "trim") {
      UString whole = b + a + b;      // a is a part of a longer string
      r.push_back(UString(StringUtils::trim(UStringView(whole).substr(b.size(), a.size()))));
    }
    else if (op == "split") r = StringUtils::split(a, b);
    else if (op == "splitesc") r = StringUtils::split_escaped(a, b[0]);
    else if (op == "join") {
      std::vector<UString> v;
      if (!x[1].empty()) for (auto &q : split(x[1], '|')) v.push_back(ustr(q));
      r.push_back(StringUtils::join(v, b));
    }
    else if (op == "subst") r.push_back(StringUtils::substitute(a, b, c));
    else if (op == "lower") r.push_back(StringUtils::tolower(a));
    else if (op == "upper") r.push_back(StringUtils::toupper(a));
    else if (op == "title") r.push_back(StringUtils::totitle(a));
    else if (op == "getcase") r.push_back(StringUtils::getcase(a));
    else if (op == "copycase") r.push_back(StringUtils::copycase(a, b));
    else if (op == "caseequal") r.push_back(StringUtils::caseequal(a, b) ? "1"_u : "0"_u);
    else if (op == "starts") r.push_back(StringUtils::startswith(a, b) ? "1"_u : "0"_u);
    else if (op == "ends") r.push_back(StringUtils::endswith(a, b) ? "1"_u : "0"_u);
    else if (op == "merge") r.push_back(StringUtils::merge_wblanks(a, b));
    else if (op == "itoa") r.push_back(StringUtils::itoa(std::stol(x[4])));
    else if (op == "stoi") r.push_back(StringUtils::itoa(StringUtils::stoi(a)));
    std::cout << r.size();
    for (auto &q : r) std::cout << '|' << show(q);
    std::cout << std::endl;
  }
}

// readstream FILE ADD TAG...: one line per step, fields separated by tabs
static void readstream(int argc, char **argv)
{
  InputFile in;
  in.open_or_exit(argv[2]);
  StreamReader rd(&in);
  Alphabet a;
  std::string add = argv[3];
  if (add != "none") rd.alpha = &a;
  rd.add_unknowns = (add == "add");
  for (int i = 4; i < argc; i++) a.includeSymbol(ustr(argv[i]));
  for (int n = 0; n < 1000; n++) {
    rd.next();
    std::cout << show(rd.blank) << '\t' << show(rd.wblank) << '\t' << show(rd.chunk) << '\t' << rd.at_null << '\t' << rd.at_eof;
    for (auto &r : rd.readings) {
      std::cout << '\t' << static_cast<long>(r.mark) << ';' << show(r.content) << ';';
      for (auto s : r.symbols) {
        UString t;
        if (s != 0) a.getSymbol(t, s);
        std::cout << show(t) << ',';
      }
    }
    std::cout << std::endl;
    if (rd.at_eof) break;
  }
}

int main(int argc, char **argv)
{
  LtLocale::tryToSetLocale();
  if (argc > 1 && !strcmp(argv[1], "lookups")) lookups(argc, argv);
  else if (argc > 1 && !strcmp(argv[1], "coding")) coding();
  else if (argc > 1 && !strcmp(argv[1], "algebra")) algebra();
  else if (argc > 2 && !strcmp(argv[1], "patterns")) patterns(argv[2]);
  else if (argc > 1 && !strcmp(argv[1], "strings")) strings();
  else if (argc > 3 && !strcmp(argv[1], "readstream")) readstream(argc, argv);
  else return 2;
  return 0;
}
