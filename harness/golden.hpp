// The 75 constituents, transcribed from the tables of the documentation of the
// constituents (Schureman's tables), compound ones from their parents.
#pragma once
#include <cmath>
#include <cstring>
#include <string>
#include <vector>

namespace golden {
struct Item {
  int ident;
  const char* name;
  bool short_period;
  bool admittance;    // inferable
  int v[5];           // T s h p p1
  int shift;          // quarters of a turn
  int u[4];           // xi nu nu' nu''
  const char* f;      // nodal factor
  // degrees per hour
  double speed() const {
    const double c = 3155760000.0 / 3600;  // hours in a Julian century
    return v[0] * 15.0 + v[1] * (1336 * 360 + 307.892) / c + v[2] * (100 * 360 + 0.769) / c +
           v[3] * (11 * 360 + 109.032) / c + v[4] * 1.719 / c;
  }
};
static const std::vector<Item>& table() {
  static const std::vector<Item> t = {
    {0, "Mm", 0, 0, {0, 1, 0, -1, 0}, 0, {0, 0, 0, 0}, "mm"},
    {1, "Mf", 0, 0, {0, 2, 0, 0, 0}, 0, {-2, 0, 0, 0}, "mf"},
    {2, "Mtm", 0, 0, {0, 3, 0, -1, 0}, 0, {-2, 0, 0, 0}, "mf"},
    {3, "Msqm", 0, 0, {0, 4, -2, 0, 0}, 0, {-2, 0, 0, 0}, "mf"},
    {4, "2Q1", 1, 1, {1, -4, 1, 2, 0}, 1, {2, -1, 0, 0}, "o1"},
    {5, "Sigma1", 1, 1, {1, -4, 3, 0, 0}, 1, {2, -1, 0, 0}, "o1"},
    {6, "Q1", 1, 0, {1, -3, 1, 1, 0}, 1, {2, -1, 0, 0}, "o1"},
    {7, "Rho1", 1, 1, {1, -3, 3, -1, 0}, 1, {2, -1, 0, 0}, "o1"},
    {8, "O1", 1, 0, {1, -2, 1, 0, 0}, 1, {2, -1, 0, 0}, "o1"},
    {9, "MP1", 1, 0, {1, -2, 3, 0, 0}, -1, {0, -1, 0, 0}, "j1"},
    {10, "M11", 1, 1, {1, -1, 1, 1, 0}, -1, {0, -1, 0, 0}, "j1"},
    {11, "M12", 1, 1, {1, -1, 1, -1, 0}, -1, {2, -1, 0, 0}, "o1"},
    {12, "M13", 1, 0, {1, -1, 1, 1, 0}, -1, {0, -1, 0, 0}, "m1"},
    {13, "Chi1", 1, 1, {1, -1, 3, -1, 0}, -1, {0, -1, 0, 0}, "j1"},
    {14, "Pi1", 1, 1, {1, 0, -2, 0, 1}, 1, {0, 0, 0, 0}, "1"},
    {15, "P1", 1, 0, {1, 0, -1, 0, 0}, 1, {0, 0, 0, 0}, "1"},
    {16, "S1", 1, 0, {1, 0, 0, 0, 0}, 0, {0, 0, 0, 0}, "1"},
    {17, "K1", 1, 0, {1, 0, 1, 0, 0}, -1, {0, 0, -1, 0}, "k1"},
    {18, "Psi1", 1, 0, {1, 0, 2, 0, -1}, -1, {0, 0, 0, 0}, "1"},
    {19, "Phi1", 1, 1, {1, 0, 3, 0, 0}, -1, {0, 0, 0, 0}, "1"},
    {20, "Theta1", 1, 1, {1, 1, -1, 1, 0}, -1, {0, -1, 0, 0}, "j1"},
    {21, "J1", 1, 1, {1, 1, 1, -1, 0}, -1, {0, -1, 0, 0}, "j1"},
    {22, "OO1", 1, 1, {1, 2, 1, 0, 0}, -1, {-2, -1, 0, 0}, "oo1"},
    {23, "MNS2", 1, 0, {2, -5, 4, 1, 0}, 0, {4, -4, 0, 0}, "m22"},
    {24, "Eps2", 1, 1, {2, -5, 4, 1, 0}, 0, {2, -2, 0, 0}, "m2"},
    {25, "2N2", 1, 1, {2, -4, 2, 2, 0}, 0, {2, -2, 0, 0}, "m2"},
    {26, "Mu2", 1, 1, {2, -4, 4, 0, 0}, 0, {2, -2, 0, 0}, "m2"},
    {27, "2MS2", 1, 0, {2, -4, 4, 0, 0}, 0, {4, -4, 0, 0}, "m22"},
    {28, "N2", 1, 0, {2, -3, 2, 1, 0}, 0, {2, -2, 0, 0}, "m2"},
    {29, "Nu2", 1, 1, {2, -3, 4, -1, 0}, 0, {2, -2, 0, 0}, "m2"},
    {30, "M2", 1, 0, {2, -2, 2, 0, 0}, 0, {2, -2, 0, 0}, "m2"},
    {31, "MKS2", 1, 0, {2, -2, 4, 0, 0}, 0, {2, -2, 0, -2}, "m2_k2"},
    {32, "Lambda2", 1, 1, {2, -1, 0, 1, 0}, 2, {2, -2, 0, 0}, "m2"},
    {33, "L2", 1, 1, {2, -1, 2, -1, 0}, 2, {2, -2, 0, 0}, "l2"},
    {34, "2MN2", 1, 0, {2, -1, 2, -1, 0}, 2, {2, -2, 0, 0}, "m23"},
    {35, "T2", 1, 1, {2, 0, -1, 0, 1}, 0, {0, 0, 0, 0}, "1"},
    {36, "S2", 1, 0, {2, 0, 0, 0, 0}, 0, {0, 0, 0, 0}, "1"},
    {37, "R2", 1, 0, {2, 0, 1, 0, -1}, 2, {0, 0, 0, 0}, "1"},
    {38, "K2", 1, 0, {2, 0, 2, 0, 0}, 0, {0, 0, 0, -2}, "k2"},
    {39, "MSN2", 1, 0, {2, 1, 0, -1, 0}, 0, {0, 0, 0, 0}, "m22"},
    {40, "Eta2", 1, 1, {2, 1, 2, -1, 0}, 0, {0, -2, 0, 0}, "79"},
    {41, "2SM2", 1, 0, {2, 2, -2, 0, 0}, 0, {-2, 2, 0, 0}, "m2"},
    {42, "MO3", 1, 0, {3, -4, 3, 0, 0}, 1, {4, -3, 0, 0}, "m2_o1"},
    {43, "2MK3", 1, 0, {3, -4, 3, 0, 0}, 1, {4, -4, 1, 0}, "m22_k1"},
    {44, "M3", 1, 0, {3, -3, 3, 0, 0}, 0, {3, -3, 0, 0}, "m3"},
    {45, "MK3", 1, 0, {3, -2, 3, 0, 0}, -1, {2, -2, -1, 0}, "m2_k1"},
    {46, "N4", 1, 0, {4, -6, 4, 2, 0}, 0, {4, -4, 0, 0}, "m22"},
    {47, "MN4", 1, 0, {4, -5, 4, 1, 0}, 0, {4, -4, 0, 0}, "m22"},
    {48, "M4", 1, 0, {4, -4, 4, 0, 0}, 0, {4, -4, 0, 0}, "m22"},
    {49, "SN4", 1, 0, {4, -3, 2, 1, 0}, 0, {2, -2, 0, 0}, "m2"},
    {50, "MS4", 1, 0, {4, -2, 2, 0, 0}, 0, {2, -2, 0, 0}, "m2"},
    {51, "MK4", 1, 0, {4, -2, 4, 0, 0}, 0, {2, -2, 0, -2}, "m2_k2"},
    {52, "S4", 1, 0, {4, 0, 0, 0, 0}, 0, {0, 0, 0, 0}, "1"},
    {53, "SK4", 1, 0, {4, 0, 2, 0, 0}, 0, {0, 0, 0, -2}, "k2"},
    {54, "R4", 1, 0, {4, 0, 2, 0, -2}, 0, {0, 0, 0, 0}, "1"},
    {55, "2MN6", 1, 0, {6, -7, 6, 1, 0}, 0, {6, -6, 0, 0}, "m23"},
    {56, "M6", 1, 0, {6, -6, 6, 0, 0}, 0, {6, -6, 0, 0}, "m23"},
    {57, "MSN6", 1, 0, {6, -5, 4, 1, 0}, 0, {4, -4, 0, 0}, "m22"},
    {58, "2MS6", 1, 0, {6, -4, 4, 0, 0}, 0, {4, -4, 0, 0}, "m22"},
    {59, "2MK6", 1, 0, {6, -4, 6, 0, 0}, 0, {4, -4, 0, -2}, "m22_k2"},
    {60, "2SM6", 1, 0, {6, -2, 2, 0, 0}, 0, {2, -2, 0, 0}, "m2"},
    {61, "MSK6", 1, 0, {6, -2, 4, 0, 0}, 0, {2, -2, 0, -2}, "m2_k2"},
    {62, "S6", 1, 0, {6, 0, 0, 0, 0}, 0, {0, 0, 0, 0}, "1"},
    {63, "M8", 1, 0, {8, -8, 8, 0, 0}, 0, {8, -8, 0, 0}, "m24"},
    {64, "MSf", 0, 0, {0, 2, -2, 0, 0}, 0, {-2, 2, 0, 0}, "m2"},
    {65, "Ssa", 0, 0, {0, 0, 2, 0, 0}, 0, {0, 0, 0, 0}, "1"},
    {66, "Sa", 0, 0, {0, 0, 1, 0, 0}, 0, {0, 0, 0, 0}, "1"},
    {67, "Sa1", 0, 0, {0, 0, 1, 0, -1}, 0, {0, 0, 0, 0}, "1"},
    {68, "Sta", 0, 0, {0, 0, 3, 0, -1}, 0, {0, 0, 0, 0}, "1"},
    {69, "Mm1", 0, 0, {0, 1, 0, 1, 0}, 2, {-2, 0, 0, 0}, "mf"},
    {70, "Mf1", 0, 0, {0, 2, 0, -2, 0}, 0, {0, 0, 0, 0}, "mm"},
    {71, "A5", 0, 0, {0, 2, -2, 0, 0}, 0, {0, 0, 0, 0}, "mm"},
    {72, "M0", 0, 0, {0, 0, 0, 0, 0}, 0, {0, 0, 0, 0}, "mm"},
    {73, "Mm2", 0, 0, {0, 1, 0, 0, 0}, -1, {-1, 0, 0, 0}, "141"},
    {74, "Mf2", 0, 0, {0, 2, 0, -1, 0}, -1, {-1, 0, 0, 0}, "141"},
  };
  return t;
}
inline std::string lower(const std::string& s) {
  std::string r = s;
  for (char& c : r) if (c >= 'A' && c <= 'Z') c += 32;
  return r;
}
inline std::string upper(const std::string& s) {
  std::string r(s);
  for (auto& c : r) if (c >= 'a' && c <= 'z') c = static_cast<char>(c - 32);
  return r;
}
// Identifier of a name, -1 when there is none.
inline int find(const std::string& s) {
  const std::string l = lower(s);
  for (auto& g : table()) if (lower(g.name) == l) return g.ident;
  return -1;
}
}  // namespace golden
