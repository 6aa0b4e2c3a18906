#include "props.hpp"
const std::vector<Prop>& props_a(); const std::vector<Prop>& props_b(); const std::vector<Prop>& props_c(); const std::vector<Prop>& props_d(); const std::vector<Prop>& props_e(); const std::vector<Prop>& props_f(); const std::vector<Prop>& props_g();
const std::vector<Prop>& props() { static std::vector<Prop> v; if (v.empty()) for (auto* f : {props_a, props_b, props_c, props_d, props_e, props_f, props_g}) for (auto& p : f()) v.push_back(p); return v; }
