// Replays message histories on the repository's transcript and records the
// challenges drawn and the proof file written.  One case is a group of
// histories; every history runs on a fresh transcript.
#include "common.h"
#include "linear_gkr/transcript.h"
namespace H {
static bool drawable(const std::string &s) { return s[0] == 'd'; }
static std::string blist(const std::string &b) { static const char *d = "0123456789abcdef"; std::string s = "[";
  for (size_t i = 0; i < b.size(); ++i) { if (i) s += ","; s += "\""; s += d[(unsigned char)b[i] >> 4]; s += d[b[i] & 15]; s += "\""; } return s + "]"; }
static std::string unhex(const std::string &h) { std::string b; for (size_t i = 0; i + 1 < h.size(); i += 2) b += (char)strtol(h.substr(i, 2).c_str(), 0, 16); return b; }

static std::string run(const std::vector<std::string> &w, bool file) {
  proof_transcript t; std::string draws;
  for (size_t i = 1; i < w.size(); ++i) {
    if (drawable(w[i])) {
      int n = atoi(w[i].c_str() + 1); std::string s;
      if (n == 1 && w[i].size() == 3) s = "[" + q(t.random()) + "]";          // "d1s": the single draw
      else { prime_field::field_element *r = t.random(n); s = "["; for (int j = 0; j < n; ++j) { if (j) s += ","; s += "\"" + hex(raw(r[j])) + "\""; } s += "]"; delete[] r; }
      draws += (draws.empty() ? "" : ",") + s;
    } else if (w[i][0] == 'c') {
      bn::Ec1 p; std::string b = unhex(w[i].substr(2)); b.resize(sizeof p); memcpy((void *)&p, b.data(), sizeof p); t.msg.push_back(container(p));
    } else t.msg.push_back(container(el(mpz_class(w[i].substr(2), 16)), w[i][0] == 'f' ? container::fld_ele_indicator : container::statement_indicator)); }
  std::string s = "{\"d\":[" + draws + "]";
  if (file) {
    static char nm[] = "t.bin"; unlink(nm); t.output_to_file(nm);
    std::ifstream f(nm, std::ios::binary); std::string b((std::istreambuf_iterator<char>(f)), std::istreambuf_iterator<char>());
    s += ",\"file\":" + blist(b) + ",\"size\":" + std::to_string(t.get_proof_size()); }
  return s + "}"; }

int run_plan(int argc, char **argv) {
  auto cases = load(argv[1]); FILE *out = fopen(argv[2], "w"); log_init();
  for (auto &c : cases) {
    log_reset();
    run_child([&]() { set_rand(c); std::vector<std::string> base;
      for (auto &o : c.ops) {
        if (o[0] == "perturb") continue;
        if (o[0] != "A") { base = o; ev(run(o, o[0] == "F")); continue; }
        // A j message: the last full history with its j-th message replaced
        auto w = base; int left = atoi(o[1].c_str());
        for (size_t i = 1; i < w.size(); ++i) if (!drawable(w[i]) && --left == 0) { w[i] = o[2]; break; }
        ev(run(w, false)); } });
    fprintf(out, "{\"id\":\"%s\",\"ovf\":%d,\"runs\":[%s]}\n", c.id.c_str(), shm->overflow, std::string(shm->buf, shm->len).c_str()); fflush(out); }
  fclose(out); return 0; }
}
int main(int argc, char **argv) { return H::run_plan(argc, argv); }
