// Two arbitrary unit vectors: equal (k = 0), opposite (k = 1), or with a non-zero cross product (k = 2).  By Lagrange's identity
// |d x e|^2 = (1 - d.e)(1 + d.e), so these cases are exhaustive.
#pragma once
#include "vf.h"
#include <geomc/linalg/Vec.h>
inline void unit3(geom::Vec<double,3>& d, geom::Vec<double,3>& e) {
    auto any = [] { double x = vf_real(), y = vf_real(), z = vf_real(); vf_assume(0 < x * x + y * y + z * z); return geom::Vec<double,3>(x, y, z).unit(); };
    d = any(); int64_t k = vf_pick(0, 2);
    if (k == 0) e = d; else if (k == 1) e = -d;
    else { e = any();
        double c = d.x * e.x + d.y * e.y + d.z * e.z, w[3] = {d.y * e.z - d.z * e.y, d.z * e.x - d.x * e.z, d.x * e.y - d.y * e.x}, w2 = w[0] * w[0] + w[1] * w[1] + w[2] * w[2];
        vf_assume(w[0] != 0 || w[1] != 0 || w[2] != 0); if (!vf_symbolic()) vf_assume(w2 > 1e-6);
        vf_lemma_eq(w2, (1 - c) * (1 + c), "Lagrange"); vf_lemma(w2 > 0, "non-zero cross product"); vf_lemma(1 - c != 0, "not parallel"); vf_lemma(1 + c != 0, "not antiparallel");
        vf_lemma_eq(2 * (1 + c), (d.x + e.x) * (d.x + e.x) + (d.y + e.y) * (d.y + e.y) + (d.z + e.z) * (d.z + e.z), "half angle"); vf_lemma(1 + c > 0, "half angle"); }
}
