// Executes histories of digital filters and PID controllers.
// needs: dsp/digitalfilter.cpp dsp/pidcontroller.cpp
#include "common.h"
#include <almath/dsp/digitalfilter.h>
#include <almath/dsp/pidcontroller.h>
using namespace AL::Math::DSP;

static float num(const json &p) { return float(p.at(0).get<double>() / p.at(1).get<double>()); }
static std::vector<float> nums(const json &s) {
  std::vector<float> r;
  for (const auto &x : s) r.push_back(num(x));
  return r;
}

static json one(const json &h) {
  const bool filter = h.at("kind") == "filter";
  const double D = h.at("D");
  // the objects live where uninitialised memory is not zero
  std::vector<std::unique_ptr<DigitalFilter>> f;
  std::vector<std::unique_ptr<PIDController>> p;
  for (int i = 0; i < 2; ++i) {
    f.emplace_back(new DigitalFilter());
    p.emplace_back(new PIDController());
  }
  json res = json::array();
  for (const auto &op : h.at("ops")) {
    const std::string o = op.at("op");
    const int s = op.at("s").get<int>() - 1;
    json r = {{"r", "ok"}, {"y", 0}};
    auto par = [&](const char *n) { return num(op.at("p").at(n)); };
    try {
      if (o == "copy") {
        const int from = op.at("o").get<int>() - 1;
        if (filter) *f[s] = *f[from]; else *p[s] = *p[from];
      } else if (filter) {
        if (o == "configure") f[s]->configureFilter(nums(op.at("wi")), nums(op.at("wo")), num(op.at("g")));
        else if (o == "reset") f[s]->resetFilter();
        else if (o == "new") f[s].reset(new DigitalFilter());
        else if (o == "step") r["y"] = grid(f[s]->processFilter(num(op.at("x"))), D, 0.2);
        else throw BadInput(o);
      } else {
        if (o == "init") p[s]->initialize(par("kp"), par("kv"), par("ki"), par("th"), par("off"), par("per"));
        else if (o == "init0") p[s]->initialize();
        else if (o == "new0") p[s].reset(new PIDController());
        else if (o == "new") p[s].reset(new PIDController(par("kp"), par("kv"), par("ki"), par("th"), par("off"), par("per")));
        else if (o == "gains") p[s]->setGains(num(op.at("kp")), num(op.at("kv")), num(op.at("ki")));
        else if (o == "fba") r["y"] = grid(p[s]->computeFeedbackAbsolute(num(op.at("e"))), D, 0.2);
        else if (o == "fb") {
          const float t = num(op.at("per"));
          const float c = num(op.at("cmd")), q = num(op.at("sen"));
          r["y"] = grid(t == -1.f ? p[s]->computeFeedback(c, q) : p[s]->computeFeedback(c, q, t), D, 0.2);
        } else throw BadInput(o);
      }
    } catch (const BadInput &) {
      throw;
    } catch (const json::exception &) {
      throw;
    } catch (const std::exception &) {
      r["r"] = "refused";
    }
    res.push_back(r);
  }
  return {{"kind", h.at("kind")}, {"D", h.at("D")}, {"ops", h.at("ops")}, {"res", res}};
}
int main(int argc, char **argv) { return run_histories(argc, argv, one); }

