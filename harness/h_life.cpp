// C39: starting and stopping the library.
#include "vh.hpp"
#include <um2.hpp>
#include <um2/common/logger.hpp>
#include <um2/common/settings.hpp>
#include <um2/gmsh/base_gmsh_api.hpp>
#include <um2c.h>

namespace g = um2::gmsh;
namespace lg = um2::logger;

static bool bad = false;

static void
expect(bool ok, char const * what, std::string const & history)
{
  if (!ok) {
    bad = true;
    fprintf(stdout, "BROKEN %s after %s\n", what, history.c_str());
    fflush(stdout);
  }
}

// One history of starts, stops, changed settings and solids, in a separate process.
static bool
history(vh::Rng & rng)
{
  bool started = false;
  int solids = 0;
  std::string h;
  int const n = rng.range(1, 8);
  for (int k = 0; k < n; ++k) {
    bool const c = rng.chance(0.5);
    switch (rng.range(0, 4)) {
    case 0:
    case 1: {
      // a running library may be started again
      h += c ? "I" : "i";
      c ? um2Initialize() : um2::initialize();
      started = true;
      expect(lg::level == um2::settings::logger::defaults::level && lg::timestamped == um2::settings::logger::defaults::timestamped && lg::exit_on_error == um2::settings::logger::defaults::exit_on_error, "default settings", h);
      expect(!lg::colorized, "plain output to a file", h);
      expect(g::isInitialized() != 0, "running modeller", h);
      g::option::setNumber("General.Terminal", 0);
      g::vectorpair e;
      g::model::getEntities(e, 3);
      expect((int)e.size() == solids, "number of solids", h);
      break;
    }
    case 2:
      h += c ? "F" : "f";
      printf("held back ");
      c ? um2Finalize() : um2::finalize();
      started = false;
      solids = 0;
      expect(g::isInitialized() == 0, "stopped modeller", h);
      break;
    case 3:
      h += "s";
      lg::level = rng.range(0, 4);
      lg::timestamped = rng.chance(0.5);
      lg::colorized = rng.chance(0.5);
      lg::exit_on_error = rng.chance(0.5);
      break;
    default:
      if (started) {
        h += "b";
        g::model::occ::addBox(2 * solids, 0, 0, 1, 1, 1);
        g::model::occ::synchronize();
        ++solids;
      }
    }
  }
  if (started) {
    um2::finalize();
  }
  return !bad;
}

int
main(int argc, char ** argv)
{
  return vh::run(argc, argv, "life", [](vh::Rng & rng, uint64_t) {
    vh::Rng copy = rng;
    std::string out;
    int const r = vh::isolated(
        [&] {
          // the graphics toolkit rewrites its preference files at start-up: keep it from doing so
          setenv("HOME", "/nonexistent", 1);
          if (setuid(65534) != 0) {
            return false;
          }
          return history(copy);
        },
        &out);
    size_t const at = out.find("BROKEN");
    VH(r == 0, at == std::string::npos ? "life.died" : "life.state", "%s", out.substr(at == std::string::npos ? (out.size() > 800 ? out.size() - 800 : 0) : at, 800).c_str());
    vh::count("histories");
    vh::nontrivial(copy.next());
  });
}
