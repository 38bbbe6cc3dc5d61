// Stand-in for the part of the HDF5 C++ API that DLA-Future uses: files in memory, shared by all simulated processes.
// Strict where HDF5 is: names, extents, selections, access modes; with MPI-IO the creation of datasets is collective.
#pragma once
#include <cstdint>
#include <cstring>
#include <map>
#include <memory>
#include <string>
#include <vector>

#include <mpi.h>

#include <sim/kernel.hpp>

using hsize_t = unsigned long long;
using hid_t = std::int64_t;
using herr_t = int;
inline constexpr unsigned H5F_ACC_RDONLY = 0, H5F_ACC_RDWR = 1, H5F_ACC_CREAT = 16;
enum H5S_seloper_t { H5S_SELECT_SET };
enum H5F_scope_t { H5F_SCOPE_LOCAL, H5F_SCOPE_GLOBAL };

namespace simh5 {
[[noreturn]] inline void bad(const std::string& m) {
  sim::fail("hdf5", m);
}
struct Dataset {
  int type = 0;  // size of the elements
  std::vector<hsize_t> dims;
  std::vector<char> data;
  std::vector<int> writes;  // per element
  std::vector<int> writers;  // rank of the last one
};
struct File {
  std::map<std::string, std::shared_ptr<Dataset>> sets;
  std::vector<std::string> created;  // in order
  int open = 0;
};
struct World {
  std::map<std::string, std::shared_ptr<File>> files;
  std::map<std::pair<std::string, int>, std::size_t> collectives;  // creations by (file, rank)
  std::map<hid_t, MPI_Comm> access;
  hid_t next = 1;
  std::size_t written = 0, read = 0;
  // names end with the number of a call. The counters behind them are shared by the simulated processes, so the number
  // itself is not what it would be: the k-th file of that name that a process opens is the same for all processes, and
  // its numbers have to increase.
  bool numbered = false;
  std::map<std::pair<std::string, int>, std::pair<std::size_t, long long>> opened;  // by (name, rank): files, last number
};
inline World& world() {
  static World w;
  return w;
}
inline std::string name_of_file(const std::string& given) {
  auto& w = world();
  if (!w.numbered)
    return given;
  auto e = given.rfind(".h5");
  if (e == std::string::npos || e + 3 != given.size())
    bad("unexpected file name " + given);
  auto b = e;
  while (b > 0 && given[b - 1] >= '0' && given[b - 1] <= '9')
    --b;
  if (b == e)
    bad("file name without a number: " + given);
  auto name = given.substr(0, b);
  while (!name.empty() && name.back() == '-')
    name.pop_back();
  const long long number = std::stoll(given.substr(b, e - b));
  auto [it, fresh] = w.opened.try_emplace({name, sim::cur_rank()}, std::size_t(0), -1LL);
  auto& [count, last] = it->second;
  if (number <= last)
    bad("the file " + given + " of an earlier call is created again");
  last = number;
  (void) fresh;
  return name + "#" + std::to_string(count++);
}
}

inline herr_t H5Pset_fapl_mpio(hid_t id, MPI_Comm comm, MPI_Info) {
  if (comm == MPI_COMM_NULL)
    return -1;
  simh5::world().access[id] = comm;
  return 0;
}

namespace H5 {
struct Exception {};
struct DataType {
  int size = 0;
  bool operator==(const DataType& o) const {
    return size == o.size;
  }
};
struct PredType : DataType {
  static const PredType& NATIVE_FLOAT;
  static const PredType& NATIVE_DOUBLE;
};
namespace detail {
inline constexpr int size_of_float = 4, size_of_double = 8;
inline const PredType native_float{{size_of_float}}, native_double{{size_of_double}};
}
inline const PredType& PredType::NATIVE_FLOAT = detail::native_float;
inline const PredType& PredType::NATIVE_DOUBLE = detail::native_double;

class DataSpace {
  std::vector<hsize_t> dims_;
  // the selection belongs to the space, like that of an HDF5 identifier
  struct Selection {
    bool all = true;
    std::vector<hsize_t> count, start;
  };
  std::shared_ptr<Selection> sel_ = std::make_shared<Selection>();

public:
  DataSpace(int rank, const hsize_t* dims) : dims_(dims, dims + rank) {}
  void selectHyperslab(H5S_seloper_t, const hsize_t* count, const hsize_t* start, const hsize_t* stride = nullptr,
                       const hsize_t* block = nullptr) const {
    if (stride || block)
      simh5::bad("hyperslabs with strides are not provided");
    sel_->all = false;
    sel_->count.assign(count, count + dims_.size());
    sel_->start.assign(start, start + dims_.size());
  }
  int getSimpleExtentNdims() const {
    return static_cast<int>(dims_.size());
  }
  int getSimpleExtentDims(hsize_t* d) const {
    std::copy(dims_.begin(), dims_.end(), d);
    return getSimpleExtentNdims();
  }
  const std::vector<hsize_t>& dims() const {
    return dims_;
  }
  // positions of the selected elements in order
  std::vector<hsize_t> positions() const {
    std::vector<hsize_t> start = sel_->start, count = sel_->count, r;
    if (sel_->all) {
      start.assign(dims_.size(), 0);
      count = dims_;
    }
    for (std::size_t i = 0; i < dims_.size(); ++i)
      if (start[i] + count[i] > dims_[i])
        throw Exception();
    hsize_t n = 1;
    for (auto c : count)
      n *= c;
    std::vector<hsize_t> k(dims_.size(), 0);
    for (hsize_t e = 0; e < n; ++e) {
      hsize_t p = 0;
      for (std::size_t i = 0; i < dims_.size(); ++i)
        p = p * dims_[i] + start[i] + k[i];
      r.push_back(p);
      for (std::size_t i = dims_.size(); i-- > 0;) {
        if (++k[i] < count[i])
          break;
        k[i] = 0;
      }
    }
    return r;
  }
};
struct DSetMemXferPropList {};

class DataSet {
  std::shared_ptr<simh5::Dataset> d_;
  bool writable_ = false;
  static double get(const char* p, int size) {
    if (size == 4) {
      float f;
      std::memcpy(&f, p, 4);
      return static_cast<double>(f);
    }
    double x;
    std::memcpy(&x, p, 8);
    return x;
  }
  static void put(char* p, int size, double x) {
    const float f = static_cast<float>(x);
    if (size == 4)
      std::memcpy(p, &f, 4);
    else
      std::memcpy(p, &x, 8);
  }
  static void move(const char* from, int fs, char* to, int ts) {
    if (fs == ts)
      std::memcpy(to, from, static_cast<std::size_t>(fs));
    else
      put(to, ts, get(from, fs));
  }

public:
  DataSet(std::shared_ptr<simh5::Dataset> d, bool w) : d_(std::move(d)), writable_(w) {}
  DataSpace getSpace() const {
    return DataSpace(static_cast<int>(d_->dims.size()), d_->dims.data());
  }
  DataType getDataType() const {
    return {d_->type};
  }
  void write(const void* buf, const DataType& type, const DataSpace& mem, const DataSpace& file) const {
    if (!writable_ || file.dims() != d_->dims)
      throw Exception();
    const auto m = mem.positions(), f = file.positions();
    if (m.size() != f.size())
      throw Exception();
    for (std::size_t i = 0; i < m.size(); ++i) {
      move(static_cast<const char*>(buf) + m[i] * static_cast<hsize_t>(type.size), type.size, d_->data.data() + f[i] * static_cast<hsize_t>(d_->type), d_->type);
      ++d_->writes[f[i]];
      d_->writers[f[i]] = sim::cur_rank();
    }
    simh5::world().written += m.size();
  }
  void read(void* buf, const DataType& type, const DataSpace& mem, const DataSpace& file) const {
    if (file.dims() != d_->dims)
      throw Exception();
    const auto m = mem.positions(), f = file.positions();
    if (m.size() != f.size())
      throw Exception();
    for (std::size_t i = 0; i < m.size(); ++i)
      move(d_->data.data() + f[i] * static_cast<hsize_t>(d_->type), d_->type, static_cast<char*>(buf) + m[i] * static_cast<hsize_t>(type.size), type.size);
    simh5::world().read += m.size();
  }
};

struct PropList {
  hid_t id = 0;
  hid_t getId() const {
    return id;
  }
};
struct FileCreatPropList : PropList {};
struct FileAccPropList : PropList {
  FileAccPropList() {
    id = simh5::world().next++;
  }
};

class H5File {
  struct Handle {
    std::shared_ptr<simh5::File> f;
    std::string name;
    bool writable = false, mpio = false;
    Handle(std::shared_ptr<simh5::File> ff, std::string n) : f(std::move(ff)), name(std::move(n)) {
      ++f->open;
    }
    ~Handle() {
      --f->open;
    }
  };
  std::shared_ptr<Handle> h_;

public:
  H5File() = default;
  H5File(const std::string& given, unsigned flags, const FileCreatPropList& = {}, const FileAccPropList& access = {}) {
    auto& w = simh5::world();
    const auto name = simh5::name_of_file(given);
    auto& f = w.files[name];
    const auto a = w.access.find(access.getId());
    if (!f) {
      if (!(flags & H5F_ACC_CREAT)) {
        w.files.erase(name);
        throw Exception();
      }
      f = std::make_shared<simh5::File>();
    }
    h_ = std::make_shared<Handle>(f, name);
    h_->writable = flags & H5F_ACC_RDWR;
    h_->mpio = a != w.access.end();
  }
  DataSet createDataSet(const std::string& name, const DataType& type, const DataSpace& space) const {
    if (!h_ || !h_->writable)
      throw Exception();
    auto d = std::make_shared<simh5::Dataset>();
    d->type = type.size;
    d->dims = space.dims();
    hsize_t n = 1;
    for (auto x : d->dims)
      n *= x;
    d->data.assign(n * static_cast<hsize_t>(type.size), char(0x55));
    d->writes.assign(n, 0);
    d->writers.assign(n, -1);
    auto& f = *h_->f;
    if (h_->mpio) {  // all processes create the same datasets in the same order
      auto& k = simh5::world().collectives[{h_->name, sim::cur_rank()}];
      if (k < f.created.size()) {
        const auto& o = f.created[k++];
        if (o != name)
          simh5::bad("a process creates the dataset " + name + " where another created " + o);
        auto& e = f.sets.at(o);
        if (e->type != d->type || e->dims != d->dims)
          simh5::bad("processes create the dataset " + name + " differently");
        return DataSet(e, true);
      }
      ++k;
    }
    if (f.sets.count(name))
      throw Exception();
    f.created.push_back(name);
    f.sets[name] = d;
    return DataSet(d, true);
  }
  DataSet openDataSet(const std::string& name) const {
    if (!h_ || !h_->f->sets.count(name))
      throw Exception();
    return DataSet(h_->f->sets.at(name), h_->writable);
  }
  void flush(H5F_scope_t) const {
    if (!h_)
      throw Exception();
  }
};
}
