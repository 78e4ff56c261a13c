// Driver over the engine's sources (libgringo, libreify, the syntax trees of libclingo): parse, rewrite, ground, and write.
// Reads requests from standard input; a request is a sequence of command lines, each followed by a block of bytes if it has one, up to `end`.
#include <clingo.h>
#include <clingo/astv2.hh>
#include <gringo/ground/program.hh>
#include <gringo/input/groundtermparser.hh>
#include <gringo/input/nongroundparser.hh>
#include <gringo/input/program.hh>
#include <gringo/input/programbuilder.hh>
#include <gringo/output/output.hh>
#include <gringo/output/backends.hh>
#include <potassco/theory_data.h>
#include <reify/program.hh>
#include <cstdio>
#include <iostream>
#include <sstream>
#include <string>
#include <unistd.h>
#ifdef __SANITIZE_ADDRESS__
#include <sanitizer/lsan_interface.h>
#endif

using namespace Gringo;

// tables of the C interface, used by the trees for error messages only
static char const *stub_names[64];
static clingo_ast_constructor_t stub_cons[128];
clingo_ast_attribute_names_t g_clingo_ast_attribute_names = {stub_names, 64};
clingo_ast_constructors_t g_clingo_ast_constructors = {stub_cons, 128};

// external functions: enough of them to cover calls
struct Ctx : Context {
    bool callable(String name) override { return strncmp(name.c_str(), "ext", 3) == 0; }
    SymVec call(Location const &loc, String name, SymSpan args, Logger &log) override {
        std::string n = name.c_str();
        if (n == "extid") return SymVec(begin(args), end(args));
        if (n == "extpair") { SymVec v(begin(args), end(args)); return {Symbol::createTuple(v), Symbol::createNum(int(args.size))}; }
        GRINGO_REPORT(log, Warnings::OperationUndefined) << loc << ": info: operation undefined:\n  function '" << name << "' not found\n";
        return {};
    }
    void exec(String type, Location loc, String) override {
        std::ostringstream oss; oss << loc << ": error: " << type << " support not available\n";
        throw GringoError(oss.str().c_str());
    }
};

struct Session : Output::ASPIFOutBackend {
    Potassco::TheoryData theory;
    std::ostringstream os;
    std::vector<std::pair<int, std::string>> msgs;
    Logger log;
    Ctx ctx;
    std::unique_ptr<Output::OutputBase> out_;
    Defines defs;
    Input::Program prg;
    std::unique_ptr<Input::NongroundProgramBuilder> pb;
    bool incmode = false;
    std::unique_ptr<Input::NonGroundParser> parser;
    bool parsed = false, grounded = false, initialized = false, incremental = false, aspif = false;
    std::unique_ptr<Ground::Program> bprg;

    Session(Output::OutputFormat f, Output::OutputOptions opts, bool keepFacts, bool rewMin, bool inc, unsigned limit)
        : log([this](Warnings w, char const *m) { msgs.emplace_back(int(w), m); }, limit), incremental(inc) {
        theory.update();
        out_.reset(new Output::OutputBase(theory, Output::OutputPredicates(), os, f, opts));
        out_->keepFacts = keepFacts;
        pb.reset(new Input::NongroundProgramBuilder(ctx, prg, out_->outPreds, defs, rewMin));
        parser.reset(new Input::NonGroundParser(*pb, *this, incmode));
    }
    Output::OutputBase &beginOutput() override {
        update();
        bprg = std::make_unique<Ground::Program>(prg.toGround({}, out_->data, log));
        bprg->prepare({}, *out_, log);
        return *out_;
    }
    void endOutput() override { bprg->ground(ctx, *out_, log); bprg.reset(); }
    void update() {
        if (!grounded) {
            if (!initialized) { initialized = true; out_->init(incremental); }
            out_->beginStep();
            grounded = true;
        }
    }
    void parse() {
        if (!parser->empty()) {
            switch (parser->parse(log)) {
                case Input::ParseResult::Gringo: defs.init(log); parsed = true; break;
                case Input::ParseResult::ASPIF: aspif = true; break;
            }
        }
        if (log.hasError()) throw std::runtime_error("parsing failed");
    }
    void add(std::string const &name, std::vector<std::string> const &params, std::string const &text) {
        Location loc("<block>", 1, 1, "<block>", 1, 1);
        Input::IdVec ids;
        for (auto &x : params) ids.emplace_back(loc, x.c_str());
        parser->pushBlock(name, std::move(ids), text, log);
        parse();
    }
    void ground(std::vector<std::pair<std::string, SymVec>> const &parts) {
        update();
        if (parsed) {
            prg.rewrite(defs, log);
            prg.check(log);
            if (log.hasError()) throw std::runtime_error("grounding stopped because of errors");
            parsed = false;
        }
        if (!parts.empty()) {
            Ground::Parameters params;
            std::set<Sig> sigs;
            for (auto const &x : parts) {
                params.add(x.first.c_str(), SymVec(x.second));
                sigs.emplace(x.first.c_str(), numeric_cast<uint32_t>(x.second.size()), false);
            }
            Ground::Program g(prg.toGround(sigs, out_->data, log));
            g.prepare(params, *out_, log);
            g.ground(ctx, *out_, log);
        }
    }
    void solve() {
        update();
        grounded = false;
        out_->endStep({nullptr, 0});
        out_->reset(true);
    }
};

static std::vector<Input::SAST> trees(std::string const &text, Logger &log, bool lines = false) {
    std::vector<Input::SAST> r;
    auto pb = Input::build([&](Input::SAST ast) { r.emplace_back(std::move(ast)); });
    NullBackend bck;
    bool inc = false;
    Input::NonGroundParser p(*pb, bck, inc);
    p.disable_aspif();
    p.pushStream("<string>", std::unique_ptr<std::istream>(new std::istringstream(text)), log);
    p.parse(log);
    (void)lines;
    return r;
}

static std::string block(std::istream &in, size_t n) { std::string s(n, '\0'); if (n) in.read(&s[0], std::streamsize(n)); in.get(); return s; }

static void put(char const *tag, std::string const &s) { std::cout << tag << ' ' << s.size() << '\n' << s << '\n'; }

int main() {
    std::ios::sync_with_stdio(false);
    for (auto &x : stub_names) x = "attribute";
    for (auto &x : stub_cons) x.name = "tree";
    std::string line;
    while (std::getline(std::cin, line)) {
        if (line.empty()) continue;
        std::istringstream ls(line);
        std::string cmd; ls >> cmd;
        std::unique_ptr<Session> s;
        std::vector<std::pair<int, std::string>> msgs;
        Logger log([&](Warnings w, char const *m) { msgs.emplace_back(int(w), m); }, 100);
        bool failed = false;
        size_t done = 0;
        while (cmd != "end") {
            // the block belonging to the command is always consumed, also after an error
            std::string a, b; size_t n = 0; std::string text;
            if (cmd == "define" || cmd == "term" || cmd == "astprint" || cmd == "astunpool" || cmd == "aspif") { ls >> n; text = block(std::cin, n); }
            if (cmd == "reify") { std::string f; while (ls >> f) { if (f == "scc" || f == "steps") a += " " + f; else n = std::stoul(f); } text = block(std::cin, n); }
            if (cmd == "add" || cmd == "addast" || cmd == "addunpool" || cmd == "addprint") { ls >> a >> b >> n; text = block(std::cin, n); }
            if (!failed) {
                try {
                    if (cmd == "new") {
                        std::string fmt, f; ls >> fmt;
                        Output::OutputOptions o; bool keep = false, rew = false, inc = false; unsigned limit = 100;
                        while (ls >> f) { if (f == "scc") o.reifySCCs = true; else if (f == "steps") o.reifySteps = true; else if (f == "pfacts") o.preserveFacts = true; else if (f == "keepfacts") keep = true; else if (f == "rewmin") rew = true; else if (f == "inc") inc = true; else limit = unsigned(atoi(f.c_str())); }
                        s.reset(new Session(fmt == "text" ? Output::OutputFormat::TEXT : fmt == "reify" ? Output::OutputFormat::REIFY : Output::OutputFormat::INTERMEDIATE, o, keep, rew, inc, limit));
                    } else if (cmd == "define") {
                        s->parser->parseDefine(text, s->log);
                        s->parse();
                    } else if (cmd == "add") {
                        std::vector<std::string> ps; std::string x; std::istringstream bs(b == "-" ? "" : b);
                        while (std::getline(bs, x, ',')) ps.push_back(x);
                        s->add(a, ps, text);
                    } else if (cmd == "aspif") {
                        s->parser->pushStream("<aspif>", std::unique_ptr<std::istream>(new std::istringstream(text)), s->log);
                        s->parse();
                    } else if (cmd == "addast" || cmd == "addunpool" || cmd == "addprint") {
                        auto ts = trees(text, s->log);
                        if (s->log.hasError()) throw std::runtime_error("parsing failed");
                        if (cmd == "addprint") {
                            std::ostringstream o; for (auto &t : ts) o << *t << "\n";
                            s->add("base", {}, o.str());
                        } else {
                            for (auto &t : ts) {
                                if (cmd == "addunpool") { if (auto u = Input::unpool(t)) { for (auto &x : *u) Input::parse(*s->pb, s->log, *x); continue; } }
                                Input::parse(*s->pb, s->log, *t);
                            }
                            if (s->log.hasError()) throw std::runtime_error("parsing failed");
                            s->defs.init(s->log);
                            s->parsed = true;
                        }
                    } else if (cmd == "ground") {
                        std::vector<std::pair<std::string, SymVec>> parts; std::string p;
                        while (ls >> p) {
                            auto c = p.find('/'); SymVec args; std::string nm = p.substr(0, c);
                            if (c != std::string::npos) { Input::GroundTermParser tp; Symbol t = tp.parse("(" + p.substr(c + 1) + ",)", s->log); if (t.type() == SymbolType::Fun) for (auto &y : t.args()) args.push_back(y); }
                            parts.emplace_back(nm, args);
                        }
                        if (s->aspif) parts.clear();
                        s->ground(parts);
                    } else if (cmd == "solve") {
                        s->solve();
                    } else if (cmd == "external") {
                        std::string t, v; ls >> t >> v;
                        Input::GroundTermParser tp; Symbol sym = tp.parse(t, s->log);
                        s->update();
                        auto res = s->out_->find(sym);
                        if (res.second != nullptr && res.first != res.second->end() && res.first->hasUid()) {
                            if (auto *bk = s->out_->backend()) bk->external(res.first->uid(), v == "t" ? Potassco::Value_t::True : v == "f" ? Potassco::Value_t::False : v == "u" ? Potassco::Value_t::Free : Potassco::Value_t::Release);
                        } else put("NOEXT", t);
                    } else if (cmd == "term") {
                        Input::GroundTermParser tp;
                        Symbol t = tp.parse(text, log);
                        std::ostringstream o; o << t;
                        put("TERM", o.str());
                    } else if (cmd == "reify") {
                        std::ostringstream o;
                        std::string f; bool scc = false, st = false; std::istringstream fs(a); while (fs >> f) { if (f == "scc") scc = true; if (f == "steps") st = true; }
                        { Reify::Reifier r(o, scc, st); std::istringstream in(text); r.parse(in); }
                        put("OUT", o.str());
                    } else if (cmd == "astprint" || cmd == "astunpool") {
                        auto ts = trees(text, log);
                        for (auto &t : ts) {
                            std::ostringstream o;
                            if (cmd == "astunpool") {
                                auto u = Input::unpool(t);
                                if (u) { for (auto &x : *u) o << *x << "\n"; put("UNPOOL", o.str()); }
                                else { o << *t << "\n"; put("SAME", o.str()); }
                                continue;
                            }
                            o << *t;
                            put("AST", o.str());
                            // the printed statement parses back to an equal tree, with an equal hash, and so does a copy
                            Logger l2([&](Warnings w, char const *m) { msgs.emplace_back(int(w), m); }, 100);
                            auto back = trees(o.str() + "\n", l2);
                            size_t at = back.empty() ? 0 : back.size() - 1; // parsing starts a program part
                            std::ostringstream o2; for (size_t i = at; i < back.size(); ++i) o2 << *back[i];
                            bool eq = !back.empty() && at <= 1 && *back[at] == *t && back[at]->hash() == t->hash();
                            auto cp = t->copy(); auto dp = t->deepcopy();
                            bool ceq = *cp == *t && *dp == *t && cp->hash() == t->hash() && dp->hash() == t->hash() && !(*cp < *t) && !(*t < *dp);
                            if (!eq) put("DIFF", o2.str());
                            if (!ceq) put("COPY", o.str());
                        }
                    } else throw std::logic_error("unknown command " + cmd);
                    ++done;
                } catch (GringoError const &e) { failed = true; put("EXC", std::string("gringo: ") + e.what()); }
                catch (MessageLimitError const &e) { failed = true; put("EXC", std::string("limit: ") + e.what()); }
                catch (std::bad_alloc const &e) { failed = true; put("EXC", std::string("bad_alloc")); }
                catch (std::logic_error const &e) { failed = true; put("LOGIC", e.what()); }
                catch (std::exception const &e) { failed = true; put("EXC", std::string("std: ") + e.what()); }
            }
            if (!std::getline(std::cin, line)) return 3;
            ls.clear(); ls.str(line); cmd.clear(); ls >> cmd;
        }
        if (s) {
            put("OUT", s->os.str());
            for (auto &m : s->msgs) msgs.push_back(m);
            if (s->incmode) put("INCMODE", "");
        }
        s.reset();
        for (auto &m : msgs) put(("MSG " + std::to_string(m.first)).c_str(), m.second);
#ifdef __SANITIZE_ADDRESS__
        if (__lsan_do_recoverable_leak_check()) put("LEAK", "");
#endif
        std::cout << "DONE " << done << std::endl;
    }
    return 0;
}
