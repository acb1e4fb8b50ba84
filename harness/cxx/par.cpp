/* Runs several objects at the same time, each in a thread of its own.
 * Linked into the Python module that the checks build.
 */
#include <thread>
#include <vector>
#include <atomic>
#include <omp.h>
#include <pybind11/pybind11.h>
#include "booz_xform.hpp"

namespace py = pybind11;

/* out[i]: 0 = returned, 1 = exception. enter(i) is called on thread i first. */
extern "C" __attribute__((visibility("default")))
int par_run(PyObject* list, int threads, int* out, void (*enter)(int)) {
  std::vector<booz_xform::Booz_xform*> objs;
  try {
    for (py::handle h : py::reinterpret_borrow<py::list>(list)) objs.push_back(h.cast<booz_xform::Booz_xform*>());
  } catch (...) {
    return 1;
  }
  py::gil_scoped_release release;
  std::atomic<int> waiting((int) objs.size());
  std::vector<std::thread> team;
  for (int i = 0; i < (int) objs.size(); i++)
    team.emplace_back([&, i]() {
      omp_set_num_threads(threads);
      if (enter) enter(i);
      waiting--;
      while (waiting > 0) std::this_thread::yield();
      try { objs[i]->run(); out[i] = 0; } catch (...) { out[i] = 1; }
    });
  for (auto& t : team) t.join();
  return 0;
}
