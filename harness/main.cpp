#include <fstream>
#include <iterator>
// harness SUITE [key=val ...] [--out dag.json] [--find "event ids"]
//         [--sched N] [--fault N] [--max N] [--seed N] [--replay "script"]
#include "world.hpp"
using namespace vh;
int main(int argc, char** argv)
{
    if (argc < 2) return 2;
    std::string suite(argv[1]), out, replay;
    Cfg cfg; ExploreOptions opt; bool do_replay(false);
    for (int i = 2; i < argc; ++i)
    {
        std::string a(argv[i]);
        auto val = [&]() {
            std::string v(i + 1 < argc ? argv[++i] : "");
            if (v.empty() || v[0] != '@') return v;
            std::ifstream is(v.substr(1)); // a long argument, in a file
            return std::string(std::istreambuf_iterator<char>(is), std::istreambuf_iterator<char>()); };
        if (a == "--out") out = val();
        else if (a == "--find") { std::istringstream is(val()); int v; while (is >> v) opt.find.push_back(v - 1); }
        else if (a == "--sched") opt.budget.b[C_SCHED] = atoi(val().c_str());
        else if (a == "--fault") opt.budget.b[C_FAULT] = atoi(val().c_str());
        else if (a == "--max") opt.max_runs = (size_t)atol(val().c_str());
        else if (a == "--seed") opt.seed = (uint64_t)atol(val().c_str());
        else if (a == "--replay") { replay = val(); do_replay = true; }
        else
        {
            size_t e(a.find('='));
            if (e == std::string::npos) { fprintf(stderr, "bad arg %s\n", a.c_str()); return 2; }
            cfg[a.substr(0, e)] = atol(a.c_str() + e + 1);
        }
    }
    Suite fn(find_suite(suite));
    if (!fn) { fprintf(stderr, "no suite %s\n", suite.c_str()); return 2; }
    install_signals();
    auto scenario = [&](Sim& s) {
        World* w(s.keep(new World(s, cfg)));
        s.spurious((int)w->c("spur"));
        s.unlock_points(w->c("ulk"));
        fn(*w, s);
    };
    Trie trie; Stats st;
    Sim& s(Sim::get());
    if (do_replay)
    {
        std::vector<int> script;
        std::istringstream is(replay); int v;
        while (is >> v) script.push_back(v);
        s.run_once(scenario, script, opt.budget);
        trie.add(s.trace());
        for (int e : s.trace()) printf("%s\n", s.events[(size_t)e].c_str());
        if (!out.empty()) trie.write(out, s.events, st);
        return 0;
    }
    explore(scenario, opt, trie, st);
    if (!opt.find.empty())
    {
        while (opt.found.size() > 1 && !opt.found.back()) opt.found.pop_back(); // defaults
        for (int c : opt.found) printf("%d ", c);
        printf("\n");
        return opt.found.empty() ? 1 : 0;
    }
    if (!out.empty()) trie.write(out, s.events, st);
    printf("{\"suite\":\"%s\",\"runs\":%zu,\"failures\":%zu,\"events\":%zu,\"complete\":%s,\"bound\":%ld,\"trie\":%zu,\"nodes\":%zu,\"edges\":%zu,\"kinds\":%zu}\n",
           suite.c_str(), st.runs, st.failures, st.events, st.complete ? "true" : "false", st.bound, st.nodes, st.min_nodes, st.edges, s.events.size());
    return 0;
}
