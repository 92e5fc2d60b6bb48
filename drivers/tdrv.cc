// Command-driven access to the GeoTiff class.  Same line protocol as qdrv.
#include <portinfo>

#include "geomodelgrids/utils/GeoTiff.hh"

#include <signal.h>
#include <sys/resource.h>

#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <iostream>
#include <map>
#include <memory>
#include <string>
#include <vector>

typedef geomodelgrids::utils::GeoTiff GeoTiff;

static std::vector<std::string> split(const std::string& line) {
    std::vector<std::string> out;
    size_t i = 0;
    while (true) {
        size_t j = line.find('\t', i);
        if (j == std::string::npos) { out.push_back(line.substr(i)); break; }
        out.push_back(line.substr(i, j-i));
        i = j+1;
    }
    return out;
}

static std::string clean(const std::string& s) {
    std::string r(s);
    for (size_t i = 0; i < r.size(); ++i) {
        if (r[i] == '\t' || r[i] == '\n' || r[i] == '\r') { r[i] = ' '; }
    }
    return r;
}

int main() {
    std::map<std::string, std::unique_ptr<GeoTiff> > hs;
    std::string line;
    while (std::getline(std::cin, line)) {
        std::vector<std::string> t = split(line);
        const std::string op = t[0];
        try {
            std::string out("ok");
            char buf[64];
            if (op == "NEW") { hs[t[1]].reset(new GeoTiff()); }
            else if (op == "DEL") { hs.erase(t[1]); }
            else if (op == "PING") {}
            else if (op == "LIMIT") { // bytes that a file can take; 0: any
                signal(SIGXFSZ, SIG_IGN);
                struct rlimit room;
                getrlimit(RLIMIT_FSIZE, &room);
                const unsigned long n = strtoul(t[1].c_str(), 0, 10);
                room.rlim_cur = n ? n : room.rlim_max;
                setrlimit(RLIMIT_FSIZE, &room);
            }
            else {
                GeoTiff& g = *hs.at(t[1]);
                if (op == "ROWS") { g.setNumRows(strtoul(t[2].c_str(), 0, 10)); }
                else if (op == "COLS") { g.setNumCols(strtoul(t[2].c_str(), 0, 10)); }
                else if (op == "BANDS") { g.setNumBands(strtoul(t[2].c_str(), 0, 10)); }
                else if (op == "LABELS") { g.setBandLabels(std::vector<std::string>(t.begin()+2, t.end())); }
                else if (op == "CRS") { g.setCRS(t[2].c_str()); }
                else if (op == "BBOX") { g.setBBox(strtod(t[2].c_str(), 0), strtod(t[3].c_str(), 0), strtod(t[4].c_str(), 0), strtod(t[5].c_str(), 0)); }
                else if (op == "NODATA") { g.setNoDataValue(strtof(t[2].c_str(), 0)); }
                else if (op == "CREATE") { g.create(t[2].c_str()); }
                else if (op == "FILL") { float* b = g.getBands(); for (size_t i = 2; i < t.size(); ++i) { b[i-2] = strtof(t[i].c_str(), 0); } }
                else if (op == "WRITE") { g.write(); }
                else if (op == "CLOSE") { g.close(); }
                else if (op == "READ") { g.read(t[2].c_str()); }
                else if (op == "SIZE") {
                    out += "\t" + std::to_string(g.getNumRows()) + "\t" + std::to_string(g.getNumCols()) + "\t" + std::to_string(g.getNumBands());
                } else if (op == "LABELED") {
                    const std::vector<std::string>& l = g.getBandLabels();
                    for (size_t i = 0; i < l.size(); ++i) { out += "\t" + clean(l[i]); }
                } else if (op == "GETCRS") { out += "\t" + clean(g.getCRS());
                } else if (op == "GETBBOX") {
                    double v[4];
                    g.getBBox(&v[0], &v[1], &v[2], &v[3]);
                    for (int i = 0; i < 4; ++i) { snprintf(buf, sizeof buf, "\t%.17g", v[i]); out += buf; }
                } else if (op == "DATA") {
                    const float* b = g.getBands();
                    const size_t n = g.getNumRows()*g.getNumCols()*g.getNumBands();
                    for (size_t i = 0; i < n; ++i) { snprintf(buf, sizeof buf, "\t%.9g", b[i]); out += buf; }
                } else { out = "bad"; }
            }
            std::cout << out << std::endl;
        } catch (const std::exception& e) {
            std::cout << "exc\t" << clean(e.what()) << std::endl;
        } catch (...) {
            std::cout << "exc\tunknown" << std::endl;
        }
    }
    return 0;
}
