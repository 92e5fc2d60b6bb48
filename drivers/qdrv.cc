// Command-driven access to the query interfaces (C++ and C).  One command per input line, one reply line per command.
// Tokens are separated by tabs; numbers are written by Python's repr() and read back by strtod (exact).
#include <portinfo>

#include "geomodelgrids/serial/Query.hh"
#include "geomodelgrids/serial/Model.hh"
#include "geomodelgrids/serial/Block.hh"
#include "geomodelgrids/serial/Surface.hh"
#include "geomodelgrids/utils/ErrorHandler.hh"
#include "geomodelgrids/utils/CRSTransformer.hh"
extern "C" {
#include "geomodelgrids/serial/cquery.h"
#include "geomodelgrids/utils/cerrorhandler.h"
}

#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <fstream>
#include <iostream>
#include <map>
#include <memory>
#include <string>
#include <vector>

typedef geomodelgrids::serial::Query Query;
typedef geomodelgrids::utils::ErrorHandler ErrorHandler;

static std::vector<std::string> split(const std::string& line) {
    std::vector<std::string> out;
    size_t i = 0;
    while (true) {
        size_t j = line.find('\t', i);
        if (j == std::string::npos) { out.push_back(line.substr(i)); break; }
        out.push_back(line.substr(i, j-i));
        i = j+1;
    }
    return out;
}

static std::string clean(const char* s) {
    std::string r(s ? s : "(null)");
    for (size_t i = 0; i < r.size(); ++i) {
        if (r[i] == '\t' || r[i] == '\n' || r[i] == '\r') { r[i] = ' '; }
    }
    return r;
}

static double num(const std::string& s) { return strtod(s.c_str(), NULL); }

struct Handle {
    bool c;                       // through the C interface?
    std::unique_ptr<Query> q;
    void* h;
    size_t nv;
};

int main(int argc, char** argv) {
    std::map<std::string, Handle> hs;
    std::map<std::string, std::unique_ptr<geomodelgrids::serial::Model> > models;
    std::string line;
    // Replies go to the original stdout; the library's own chatter on stdout/stderr is not mixed in.
    FILE* out = stdout;
    while (std::getline(std::cin, line)) {
        std::vector<std::string> a = split(line);
        const std::string& op = a[0];
        try {
            if (op == "NEW") { // id api
                Handle& h = hs[a[1]];
                h.c = a[2] == "c"; h.h = NULL; h.nv = 0;
                if (h.c) { h.h = geomodelgrids_squery_create(); } else { h.q.reset(new Query()); }
                fprintf(out, "ok\n");
            } else if (op == "NULLH") { // id: a C handle that is NULL
                Handle& h = hs[a[1]];
                h.c = true; h.h = NULL; h.nv = 0;
                fprintf(out, "ok\n");
            } else if (op == "INIT") { // id nm m... nv v... crs
                Handle& h = hs[a[1]];
                size_t p = 2;
                size_t nm = atoi(a[p++].c_str());
                std::vector<std::string> ms(a.begin()+p, a.begin()+p+nm); p += nm;
                size_t nv = atoi(a[p++].c_str());
                std::vector<std::string> vs(a.begin()+p, a.begin()+p+nv); p += nv;
                h.nv = nv;
                if (h.c) {
                    std::vector<const char*> mc, vc;
                    for (auto& s : ms) { mc.push_back(s.c_str()); }
                    for (auto& s : vs) { vc.push_back(s.c_str()); }
                    int st = geomodelgrids_squery_initialize(h.h, mc.data(), int(nm), vc.data(), int(nv), a[p].c_str());
                    fprintf(out, "st\t%d\n", st);
                } else {
                    h.q->initialize(ms, vs, a[p]);
                    fprintf(out, "st\t0\n");
                }
            } else if (op == "SQ") { // id mode
                Handle& h = hs[a[1]];
                int mode = atoi(a[2].c_str());
                if (h.c) {
                    int st = geomodelgrids_squery_setSquashing(h.h, mode);
                    fprintf(out, "st\t%d\n", st);
                } else {
                    h.q->setSquashing(mode == 0 ? Query::SQUASH_NONE : mode == 1 ? Query::SQUASH_TOP_SURFACE :
                                      Query::SQUASH_TOPOGRAPHY_BATHYMETRY);
                    fprintf(out, "st\t0\n");
                }
            } else if (op == "SQMIN") {
                Handle& h = hs[a[1]];
                if (h.c) {
                    fprintf(out, "st\t%d\n", geomodelgrids_squery_setSquashMinElev(h.h, num(a[2])));
                } else {
                    h.q->setSquashMinElev(num(a[2]));
                    fprintf(out, "st\t0\n");
                }
            } else if (op == "Q") { // id x y z
                Handle& h = hs[a[1]];
                // Guard values around the answer show writes outside of it.
                std::vector<double> v(h.nv+4, 12345.5);
                double x = num(a[2]), y = num(a[3]), z = num(a[4]);
                int st = h.c ? geomodelgrids_squery_query(h.h, v.data()+2, x, y, z) : h.q->query(v.data()+2, x, y, z);
                bool guard = v[0] == 12345.5 && v[1] == 12345.5 && v[h.nv+2] == 12345.5 && v[h.nv+3] == 12345.5;
                fprintf(out, "q\t%d\t%d", st, guard ? 1 : 0);
                for (size_t i = 0; i < h.nv; ++i) { fprintf(out, "\t%.17g", v[i+2]); }
                fprintf(out, "\n");
            } else if (op == "QNULL") { // id x y z with a null values pointer
                Handle& h = hs[a[1]];
                double x = num(a[2]), y = num(a[3]), z = num(a[4]);
                int st = h.c ? geomodelgrids_squery_query(h.h, NULL, x, y, z) : h.q->query(NULL, x, y, z);
                fprintf(out, "st\t%d\n", st);
            } else if (op == "TOP" || op == "TB") {
                Handle& h = hs[a[1]];
                double x = num(a[2]), y = num(a[3]);
                double e;
                if (op == "TOP") {
                    e = h.c ? geomodelgrids_squery_queryTopElevation(h.h, x, y) : h.q->queryTopElevation(x, y);
                } else {
                    e = h.c ? geomodelgrids_squery_queryTopoBathyElevation(h.h, x, y) : h.q->queryTopoBathyElevation(x, y);
                }
                fprintf(out, "e\t%.17g\n", e);
            } else if (op == "FIN") {
                Handle& h = hs[a[1]];
                if (h.c) {
                    fprintf(out, "st\t%d\n", geomodelgrids_squery_finalize(h.h));
                } else {
                    h.q->finalize();
                    fprintf(out, "st\t0\n");
                }
            } else if (op == "DEL") {
                Handle& h = hs[a[1]];
                if (h.c) { geomodelgrids_squery_destroy(&h.h); fprintf(out, "del\t%d\n", h.h == NULL ? 1 : 0); }
                else { h.q.reset(); fprintf(out, "del\t1\n"); }
            } else if (op == "DELNULL") {
                geomodelgrids_squery_destroy(NULL);
                fprintf(out, "ok\n");
            } else if (op == "STATUS") { // id: status and message of the error handler
                Handle& h = hs[a[1]];
                if (h.c) {
                    void* eh = geomodelgrids_squery_getErrorHandler(h.h);
                    if (!eh) { fprintf(out, "noeh\n"); }
                    else {
                        const char* m = geomodelgrids_cerrorhandler_getMessage(eh);
                        fprintf(out, "eh\t%d\t%s\n", geomodelgrids_cerrorhandler_getStatus(eh), clean(m).c_str());
                    }
                } else {
                    fprintf(out, "eh\t%d\t%s\n", int(h.q->getErrorHandler()->getStatus()),
                            clean(h.q->getErrorHandler()->getMessage()).c_str());
                }
            } else if (op == "EHNULL") { // every function of the C error handler with a null handle
                geomodelgrids_cerrorhandler_setLogFilename(NULL, "x");
                geomodelgrids_cerrorhandler_setLoggingOn(NULL, 1);
                geomodelgrids_cerrorhandler_resetStatus(NULL);
                geomodelgrids_cerrorhandler_getLogFilename(NULL);
                geomodelgrids_cerrorhandler_getMessage(NULL);
                fprintf(out, "st\t%d\n", int(geomodelgrids_cerrorhandler_getStatus(NULL)));
            } else if (op == "RESET") {
                Handle& h = hs[a[1]];
                if (h.c) {
                    geomodelgrids_cerrorhandler_resetStatus(geomodelgrids_squery_getErrorHandler(h.h));
                } else { h.q->getErrorHandler()->resetStatus(); }
                fprintf(out, "ok\n");
            } else if (op == "LOGFILE") {
                Handle& h = hs[a[1]];
                if (h.c) { geomodelgrids_cerrorhandler_setLogFilename(geomodelgrids_squery_getErrorHandler(h.h), a[2].c_str()); }
                else { h.q->getErrorHandler()->setLogFilename(a[2].c_str()); }
                fprintf(out, "ok\n");
            } else if (op == "LOGON") {
                Handle& h = hs[a[1]];
                if (h.c) { geomodelgrids_cerrorhandler_setLoggingOn(geomodelgrids_squery_getErrorHandler(h.h), atoi(a[2].c_str())); }
                else { h.q->getErrorHandler()->setLoggingOn(atoi(a[2].c_str()) != 0); }
                fprintf(out, "ok\n");
            } else if (op == "LOGMSG") {
                Handle& h = hs[a[1]];
                (h.c ? (ErrorHandler*) geomodelgrids_squery_getErrorHandler(h.h) : h.q->getErrorHandler().get())->logMessage(a[2].c_str());
                fprintf(out, "ok\n");
            } else if (op == "SETERR" || op == "SETWARN") {
                Handle& h = hs[a[1]];
                ErrorHandler* eh = h.c ? (ErrorHandler*) geomodelgrids_squery_getErrorHandler(h.h) : h.q->getErrorHandler().get();
                if (op == "SETERR") { eh->setError(a[2].c_str()); } else { eh->setWarning(a[2].c_str()); }
                fprintf(out, "ok\n");
            } else if (op == "GETLOG") {
                Handle& h = hs[a[1]];
                fprintf(out, "s\t%s\n", clean(h.c ? geomodelgrids_cerrorhandler_getLogFilename(geomodelgrids_squery_getErrorHandler(h.h)) :
                                              h.q->getErrorHandler()->getLogFilename()).c_str());
            } else if (op == "MOPEN") { // id file crs [hx hy hz]: a single model
                std::unique_ptr<geomodelgrids::serial::Model>& m = models[a[1]];
                m.reset(new geomodelgrids::serial::Model());
                m->setInputCRS(a[3]);
                m->open(a[2].c_str(), geomodelgrids::serial::Model::READ);
                m->loadMetadata();
                if (a.size() > 6) {
                    size_t d[3] = { size_t(atoi(a[4].c_str())), size_t(atoi(a[5].c_str())), size_t(atoi(a[6].c_str())) };
                    for (auto& b : m->getBlocks()) { b->setHyperslabDims(d, 3); }
                }
                m->initialize();
                fprintf(out, "ok\n");
            } else if (op == "MAGAIN") { // id crs: the same model for points in another coordinate system
                models[a[1]]->setInputCRS(a[2]);
                models[a[1]]->initialize();
                fprintf(out, "ok\n");
            } else if (op == "MQ") { // id x y z
                std::unique_ptr<geomodelgrids::serial::Model>& m = models[a[1]];
                double x = num(a[2]), y = num(a[3]), z = num(a[4]);
                if (!m->contains(x, y, z)) { fprintf(out, "m\t0\n"); }
                else {
                    const size_t nv = m->getValueNames().size();
                    const double* v = m->query(x, y, z);
                    fprintf(out, "m\t1");
                    for (size_t i = 0; i < nv; ++i) { fprintf(out, "\t%.17g", v[i]); }
                    fprintf(out, "\n");
                }
            } else if (op == "MTOP" || op == "MTB") {
                std::unique_ptr<geomodelgrids::serial::Model>& m = models[a[1]];
                fprintf(out, "e\t%.17g\n", op == "MTOP" ? m->queryTopElevation(num(a[2]), num(a[3])) :
                        m->queryTopoBathyElevation(num(a[2]), num(a[3])));
            } else if (op == "TR") { // src dest x y z: there and back
                geomodelgrids::utils::CRSTransformer t;
                t.setSrc(a[1].c_str());
                t.setDest(a[2].c_str());
                t.initialize();
                double x = 0, y = 0, z = 0, bx = 0, by = 0, bz = 0;
                t.transform(&x, &y, &z, num(a[3]), num(a[4]), num(a[5]));
                t.inverse_transform(&bx, &by, &bz, x, y, z);
                fprintf(out, "t\t%.17g\t%.17g\t%.17g\t%.17g\t%.17g\t%.17g\n", x, y, z, bx, by, bz);
            } else if (op == "XY") { // crs x y: coordinates in x, y order
                geomodelgrids::utils::CRSTransformer* t = geomodelgrids::utils::CRSTransformer::createGeoToXYAxisOrder(a[1].c_str());
                double x = 0, y = 0;
                t->transform(&x, &y, NULL, num(a[2]), num(a[3]), 0.0);
                delete t;
                fprintf(out, "t\t%.17g\t%.17g\n", x, y);
            } else if (op == "MCLOSE") {
                models[a[1]]->close();
                fprintf(out, "ok\n");
            } else if (op == "MDEL") {
                models.erase(a[1]);
                fprintf(out, "ok\n");
            } else {
                fprintf(out, "badop\n");
            }
        } catch (const std::exception& e) {
            fprintf(out, "exc\t%s\n", clean(e.what()).c_str());
        } catch (...) {
            fprintf(out, "exc\tunknown\n");
        }
        fflush(out);
    }
    return 0;
}
