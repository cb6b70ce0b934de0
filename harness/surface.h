// Reference for the ground surface at a location.
#ifndef SURFACE_H
#define SURFACE_H
struct Surface { bool known; double elev; };
static Surface surface_at(SymGeom& g, bool ext, double lon, double lat, double elev, bool squashing) {
  Surface s;
  s.known = false;
  s.elev = -999.0;
  etree_addr_t a;
  a.level = ETREE_MAXLEVEL;
  a.type = ETREE_LEAF;
  if (g.lonLatElevToAddr(&a, lon, lat, elev)) return s;
  for (int w = 0; w < (ext ? 2 : 1); ++w) {
    const DbRecord& r = vm_lookup(&g_db[w], a);
    if (!r.found || vs_split(r.hit.type == ETREE_INTERIOR)) continue;
    etree_addr_t o = r.hit;
    const double depth = r.payload.DepthFreeSurf;
    double x, y, z;
    g.addrToLonLatElev(&x, &y, &z, &o);
    s.known = true;
    s.elev = z + depth;
    if (!squashing) return s;
    // stair steps: without a solid leaf at the surface, the surface is one octant lower
    bool solid = false;
    if (!g.lonLatElevToAddr(&a, lon, lat, s.elev)) {
      const DbRecord& t = vm_lookup(&g_db[w], a);
      solid = t.found && vs_split(t.hit.type == ETREE_LEAF) && vs_split(t.payload.Vs != -999.0f);
    }
    if (!solid) {
      const unsigned size = 0x80000000u >> o.level;
      vs_assume(o.z >= size);              // there is an octant below in the domain
      o.z -= size;
      g.addrToLonLatElev(&x, &y, &z, &o);
      s.elev = z + depth;
    }
    // -999 m itself stands for "unknown"
    vs_assume(s.elev != -999.0);
    return s;
  }
  return s;
}
#endif
