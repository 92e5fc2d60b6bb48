// Command-driven access to Model metadata and to the HDF5 handle.  Same line protocol as qdrv; strings in answers are hex.
#include <portinfo>

#include "geomodelgrids/serial/Block.hh"
#include "geomodelgrids/serial/HDF5.hh"
#include "geomodelgrids/serial/Hyperslab.hh"
#include "geomodelgrids/serial/Model.hh"
#include "geomodelgrids/serial/ModelInfo.hh"
#include "geomodelgrids/serial/Surface.hh"

#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <iostream>
#include <map>
#include <memory>
#include <string>
#include <vector>

using namespace geomodelgrids::serial;

static std::vector<std::string> split(const std::string& line) {
    std::vector<std::string> out;
    size_t i = 0;
    while (true) {
        size_t j = line.find('\t', i);
        if (j == std::string::npos) { out.push_back(line.substr(i)); break; }
        out.push_back(line.substr(i, j-i));
        i = j+1;
    }
    return out;
}

static std::string hex(const std::string& s) {
    static const char* d = "0123456789abcdef";
    std::string r("x");
    for (size_t i = 0; i < s.size(); ++i) { r += d[(unsigned char)s[i] >> 4]; r += d[(unsigned char)s[i] & 15]; }
    return r;
}

static std::string num(double v) { char b[64]; snprintf(b, sizeof b, "%.17g", v); return b; }

static std::string out;
static void item(const std::string& key) { out += "\t@" + key; }
static void item(const std::string& key, const std::string& v) { item(key); out += "\t" + hex(v); }
static void item(const std::string& key, const std::vector<std::string>& v) { item(key); for (size_t i = 0; i < v.size(); ++i) { out += "\t" + hex(v[i]); } }
static void item(const std::string& key, double v) { item(key); out += "\t" + num(v); }
static void item(const std::string& key, const double* v, size_t n) { item(key); for (size_t i = 0; i < n; ++i) { out += "\t" + num(v[i]); } }
static void axis(const std::string& key, double res, const double* c, size_t n) {
    if (c) { item(key + "_coordinates", c, n); } else { item(key + "_resolution", res); }
}

static void show(Model& m) {
    const std::shared_ptr<ModelInfo>& i = m.getInfo();
    item("title", i->getTitle()); item("id", i->getId()); item("description", i->getDescription());
    item("keywords", i->getKeywords()); item("history", i->getHistory()); item("comment", i->getComment());
    item("creator_name", i->getCreatorName()); item("creator_institution", i->getCreatorInstitution());
    item("creator_email", i->getCreatorEmail()); item("acknowledgement", i->getAcknowledgement());
    item("authors", i->getAuthors()); item("references", i->getReferences());
    item("repository_name", i->getRepositoryName()); item("repository_url", i->getRepositoryURL());
    item("repository_doi", i->getRepositoryDOI()); item("version", i->getVersion()); item("license", i->getLicense());
    item("auxiliary", i->getAuxiliary());
    item("data_values", m.getValueNames()); item("data_units", m.getValueUnits());
    item("data_layout", std::string(m.getDataLayout() == Model::VERTEX ? "vertex" : "cell"));
    item("crs", m.getCRSString());
    item("origin_x", m.getOrigin()[0]); item("origin_y", m.getOrigin()[1]); item("y_azimuth", m.getYAzimuth());
    item("dim_x", m.getDims()[0]); item("dim_y", m.getDims()[1]); item("dim_z", m.getDims()[2]);
    const std::shared_ptr<Surface> ss[2] = { m.getTopSurface(), m.getTopoBathy() };
    const char* names[2] = { "surfaces/top_surface", "surfaces/topography_bathymetry" };
    for (int k = 0; k < 2; ++k) {
        if (!ss[k]) { continue; }
        const std::string p = names[k];
        const size_t* d = ss[k]->getDims();
        item(p + "/n"); out += "\t" + std::to_string(d[0]) + "\t" + std::to_string(d[1]);
        axis(p + "/x", ss[k]->getResolutionX(), ss[k]->getCoordinatesX(), d[0]);
        axis(p + "/y", ss[k]->getResolutionY(), ss[k]->getCoordinatesY(), d[1]);
    }
    std::vector<std::string> order;
    const std::vector<std::shared_ptr<Block> >& bs = m.getBlocks();
    for (size_t k = 0; k < bs.size(); ++k) {
        Block& b = *bs[k];
        const std::string p = "blocks/" + b.getName();
        order.push_back(b.getName());
        const size_t* d = b.getDims();
        item(p + "/n"); out += "\t" + std::to_string(d[0]) + "\t" + std::to_string(d[1]) + "\t" + std::to_string(d[2]) + "\t" + std::to_string(b.getNumValues());
        axis(p + "/x", b.getResolutionX(), b.getCoordinatesX(), d[0]);
        axis(p + "/y", b.getResolutionY(), b.getCoordinatesY(), d[1]);
        axis(p + "/z", b.getResolutionZ(), b.getCoordinatesZ(), d[2]);
        item(p + "/z_top", b.getZTop());
        item(p + "/z_bottom"); { char t[64]; snprintf(t, sizeof t, "%.12g", b.getZBottom()); out += std::string("\t") + t; } // computed: to roundoff
    }
    item("order", order);
}

int main() {
    std::map<std::string, std::unique_ptr<Model> > ms;
    std::map<std::string, std::unique_ptr<HDF5> > hs;
    std::map<std::string, std::unique_ptr<Hyperslab> > slabs;
    std::string line;
    while (std::getline(std::cin, line)) {
        std::vector<std::string> t = split(line);
        const std::string op = t[0];
        out = "ok";
        try {
            if (op == "MNEW") { ms[t[1]].reset(new Model()); }
            else if (op == "MDEL") { ms.erase(t[1]); }
            else if (op == "MOPEN") { ms.at(t[1])->open(t[2].c_str(), Model::READ); }
            else if (op == "MLOAD") { ms.at(t[1])->loadMetadata(); }
            else if (op == "MGET") { show(*ms.at(t[1])); }
            else if (op == "MCLOSE") { ms.at(t[1])->close(); }
            else if (op == "HNEW") { hs[t[1]].reset(new HDF5()); }
            else if (op == "HDEL") { hs.erase(t[1]); }
            else {
                HDF5& h = *hs.at(t[1]);
                if (op == "OPEN") { h.open(t[2].c_str(), t[3] == "r" ? H5F_ACC_RDONLY : t[3] == "w" ? H5F_ACC_RDWR : H5F_ACC_TRUNC); }
                else if (op == "CLOSE") { h.close(); }
                else if (op == "CACHE") { h.setCache(strtoul(t[2].c_str(), 0, 10), strtoul(t[3].c_str(), 0, 10), strtod(t[4].c_str(), 0)); }
                else if (op == "ISOPEN") { out += h.isOpen() ? "\tyes" : "\tno"; }
                else if (op == "GROUP") { out += h.hasGroup(t[2].c_str()) ? "\tyes" : "\tno"; }
                else if (op == "DATASET") { out += h.hasDataset(t[2].c_str()) ? "\tyes" : "\tno"; }
                else if (op == "DIMS") {
                    hsize_t* dims = nullptr; int n = 0;
                    h.getDatasetDims(&dims, &n, t[2].c_str());
                    for (int i = 0; i < n; ++i) { out += "\t" + std::to_string(dims[i]); }
                    delete[] dims;
                } else if (op == "NAMES") {
                    std::vector<std::string> v;
                    h.getGroupDatasets(&v, t[2].c_str());
                    for (size_t i = 0; i < v.size(); ++i) { out += "\t" + hex(v[i]); }
                } else if (op == "ATTR") { out += h.hasAttribute(t[2].c_str(), t[3].c_str()) ? "\tyes" : "\tno"; }
                else if (op == "NUM") {
                    double v = 0.0;
                    h.readAttribute(t[2].c_str(), t[3].c_str(), H5T_NATIVE_DOUBLE, (void*)&v);
                    out += "\t" + num(v);
                } else if (op == "NUMS") {
                    double* v = nullptr; size_t n = 0;
                    h.readAttribute(t[2].c_str(), t[3].c_str(), H5T_NATIVE_DOUBLE, (void**)&v, &n);
                    for (size_t i = 0; i < n; ++i) { out += "\t" + num(v[i]); }
                    delete[] (char*)v;
                } else if (op == "STR") { const std::string v = h.readAttribute(t[2].c_str(), t[3].c_str()); out += "\t" + hex(v); }
                else if (op == "STRS") {
                    std::vector<std::string> v(3, "before");
                    h.readAttribute(t[2].c_str(), t[3].c_str(), &v);
                    for (size_t i = 0; i < v.size(); ++i) { out += "\t" + hex(v[i]); }
                } else if (op == "READ") { // READ h path type rank origin... dims...
                    const int n = atoi(t[4].c_str());
                    std::vector<hsize_t> o(n), d(n);
                    size_t total = 1;
                    for (int i = 0; i < n; ++i) {
                        o[i] = strtoull(t[5+i].c_str(), 0, 10); d[i] = strtoull(t[5+n+i].c_str(), 0, 10);
                        total = (d[i] > 100000) ? total : total * d[i];
                    }
                    const size_t guard = 4096;
                    if (t[3] == "d") {
                        std::vector<double> v(total+guard, -777.0);
                        h.readDatasetHyperslab(v.data(), t[2].c_str(), o.data(), d.data(), n, H5T_NATIVE_DOUBLE);
                        for (size_t i = 0; i < total; ++i) { out += "\t" + num(v[i]); }
                        for (size_t i = total; i < total+guard; ++i) { if (v[i] != -777.0) { out += "\toverrun"; break; } }
                    } else {
                        std::vector<float> v(total+guard, -777.0f);
                        h.readDatasetHyperslab(v.data(), t[2].c_str(), o.data(), d.data(), n, H5T_NATIVE_FLOAT);
                        for (size_t i = 0; i < total; ++i) { out += "\t" + num(v[i]); }
                        for (size_t i = total; i < total+guard; ++i) { if (v[i] != -777.0f) { out += "\toverrun"; break; } }
                    }
                } else if (op == "SLAB") { // SLAB h slab path rank dims...
                    const int n = atoi(t[4].c_str());
                    std::vector<hsize_t> d(n);
                    for (int i = 0; i < n; ++i) { d[i] = strtoull(t[5+i].c_str(), 0, 10); }
                    slabs.erase(t[2]);
                    slabs[t[2]].reset(new Hyperslab(&h, t[3].c_str(), d.data(), n));
                } else if (op == "UNSLAB") { slabs.erase(t[2]);
                } else if (op == "AT") { // AT h slab how number-of-values index...
                    const size_t total = strtoul(t[4].c_str(), 0, 10), guard = 16;
                    std::vector<double> v(total+guard, -777.0), at(t.size() - 5);
                    for (size_t i = 0; i < at.size(); ++i) { at[i] = strtod(t[5+i].c_str(), 0); }
                    if (t[3] == "nearest") { slabs.at(t[2])->nearest(v.data(), at.data()); } else { slabs.at(t[2])->interpolate(v.data(), at.data()); }
                    for (size_t i = 0; i < total; ++i) { out += "\t" + num(v[i]); }
                    for (size_t i = total; i < total+guard; ++i) { if (v[i] != -777.0) { out += "\toverrun"; break; } }
                } else { out = "bad"; }
            }
            std::cout << out << std::endl;
        } catch (const std::exception& e) {
            std::cout << "exc\t" << hex(e.what()) << std::endl;
        } catch (...) {
            std::cout << "exc\t" << hex("unknown") << std::endl;
        }
    }
    return 0;
}
