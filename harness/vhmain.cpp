#include "vh.hpp"
int main(int argc, char **argv)
{
  vh::Ctx c;
  std::string prop, prog;
  for (int i = 1; i < argc; i++) {
    std::string a = argv[i];
    auto nx = [&] { return std::string(argv[++i]); };
    if (a == "--prop") prop = nx();
    else if (a == "--seed") c.seed = std::stoull(nx());
    else if (a == "--thorough") c.thorough = true;
    else if (a == "--shard") {
      auto s = nx();
      sscanf(s.c_str(), "%d/%d", &c.shard, &c.nshard);
    } else if (a == "--out") c.out = nx();
    else if (a == "--progress") prog = nx();
    else if (a == "--case") {
      auto s = nx();
      auto p = s.rfind(':');
      c.only_group = s.substr(0, p);
      c.only_idx = std::stoi(s.substr(p + 1));
    }
  }
  if (const char *m = getenv("VH_MULT")) c.mult = std::max(1, atoi(m));
  if (!prog.empty()) c.progress_fd = open(prog.c_str(), O_CREAT | O_WRONLY | O_TRUNC, 0644);
  auto it = vh::registry().find(prop);
  if (it == vh::registry().end()) {
    fprintf(stderr, "unknown property %s\n", prop.c_str());
    return 3;
  }
  it->second(c);
  c.write();
  return 0;
}
