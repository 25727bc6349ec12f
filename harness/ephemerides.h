// Ephemerides with an orbit of their own each: an answer tells which one it was computed from.
#pragma once
#include "core/sat_manager.h"
#include "common/satellite/satellite_state.h"
using GPS = mc::ephemeris::GPSEphemeris;
using GLO = mc::ephemeris::GlonassEphemeris;
using GAL = mc::ephemeris::GalileoEphemeris;
template <class E> void kepler(E& e, int sat, const mc::UTCTime& toe, int id)
{
    e = E();
    e.sat = sat;
    e.toe = e.toc = toe;
    e.tow = e.toes = e.tocs = 1000;
    e.iodc = e.iode = id & 255;
    e.week = 2000;
    e.af2 = 0; e.af1 = 0; e.af0 = id * 1e-6;
    e.m0 = 0.3 + 1e-3 * (id % 2500); e.delta_n = 0; e.ecc = 0.01; e.sqrta = 5153.7;
    e.omega0 = 1 + 0.1 * (id / 2500); e.i0 = 0.95; e.w = 0.4; e.omegadot = 0; e.idot = 0;
    e.cuc = e.cus = e.crc = e.crs = e.cic = e.cis = 0;
}
inline GPS mkGps(int sat, const mc::UTCTime& toe, int id) { GPS e(sat); kepler(e, sat, toe, id); e.gnssID = mc::GnssID::GPS; return e; }
inline GAL mkGal(int sat, const mc::UTCTime& toe, int id) { GAL e(sat); kepler(e, sat, toe, id); e.gnssID = mc::GnssID::Galileo; return e; }
inline GLO mkGlo(int sat, const mc::UTCTime& toe, int id)
{
    GLO e(sat);
    e.gnssID = mc::GnssID::Glonass;
    e.sat = sat;
    e.toe = e.tof = toe;
    e.iode = id & 127; e.slot = 1; e.svh = e.sva = e.age = 0;
    e.pos = mc::Vec3(10e6 + 1e3 * id, 15e6, 17e6);
    e.vel = mc::Vec3(-1000, -2000, 2300);
    e.acc = mc::Vec3(0, 0, 0);
    e.taun = -1e-6 * id; e.gamn = 0; e.dtaun = 0;
    return e;
}
