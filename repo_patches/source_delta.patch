From 7f0059e4307ddccacc723e844b45c9efef91e713 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:05 +0000
Subject: [PATCH 01/49] fix: mapped_file releases exactly what it acquired

A failed or never attempted open left the members uninitialized, so that
the destructor unmapped and closed garbage; close() left the file open for
is_open() and released everything again in the destructor; reopening leaked
the previous mapping; copies would have released the same mapping twice.
---
 libdiskpp/include/diskpp/common/mapped_file.h |  3 ++
 libdiskpp/src/common/mapped_file.cpp          | 30 ++++++++++++-------
 2 files changed, 23 insertions(+), 10 deletions(-)

diff --git a/libdiskpp/include/diskpp/common/mapped_file.h b/libdiskpp/include/diskpp/common/mapped_file.h
index ba576ec..bd942c5 100644
--- a/libdiskpp/include/diskpp/common/mapped_file.h
+++ b/libdiskpp/include/diskpp/common/mapped_file.h
@@ -70,6 +70,9 @@ public:
                     mapped_file(const std::string& name);
                     ~mapped_file();
 
+                    mapped_file(const mapped_file&) = delete;
+    mapped_file&    operator=(const mapped_file&) = delete;
+
     void            open(const std::string& name);
     void            close();
     bool            is_open(void) const;
diff --git a/libdiskpp/src/common/mapped_file.cpp b/libdiskpp/src/common/mapped_file.cpp
index 45cf388..29b48a5 100644
--- a/libdiskpp/src/common/mapped_file.cpp
+++ b/libdiskpp/src/common/mapped_file.cpp
@@ -64,11 +64,11 @@
 #include "diskpp/common/mapped_file.h"
 
 mapped_file::mapped_file()
-    : m_is_open(false)
+    : m_start(nullptr), m_end(nullptr), m_fd(-1), m_length(0), m_addr(nullptr), m_is_open(false)
 {}
 
 mapped_file::mapped_file(const std::string& name)
-    : m_is_open(false)
+    : mapped_file()
 {
     open(name);
 }
@@ -81,25 +81,31 @@ mapped_file::~mapped_file()
 void
 mapped_file::open(const std::string& name)
 {
+    close();
     m_is_open = map(name);
 }
 
 void
 mapped_file::close(void)
 {
+    if (!m_is_open)
+        return;
+
     unmap();
+    m_is_open = false;
 }
 
 bool
 mapped_file::map(const std::string& name)
 {
+    m_name = name;
+
     int fd = ::open(name.c_str(), O_RDONLY);
     if (fd == -1)
     {
         perror("open");
         return false;
     }
-    m_fd = fd;
 
     struct stat sb;
     if (fstat(fd, &sb) == -1)
@@ -108,21 +114,21 @@ mapped_file::map(const std::string& name)
         ::close(fd);
         return false;
     }
-    m_length = sb.st_size;
+    size_t length = sb.st_size;
 
-    m_addr = static_cast<const char*>(
-                         mmap(NULL, m_length, PROT_READ, MAP_PRIVATE, fd, 0u)
-                       );
-    if (m_addr == MAP_FAILED)
+    void *addr = mmap(NULL, length, PROT_READ, MAP_PRIVATE, fd, 0u);
+    if (addr == MAP_FAILED)
     {
         perror("mmap");
         ::close(fd);
         return false;
     }
 
-    madvise((void*)m_addr, sb.st_size, MADV_SEQUENTIAL);
+    madvise(addr, length, MADV_SEQUENTIAL);
 
-    m_name = name;
+    m_fd = fd;
+    m_length = length;
+    m_addr = static_cast<const char*>(addr);
 
     m_start = m_addr;
     m_end = m_addr + m_length;
@@ -136,6 +142,10 @@ mapped_file::unmap(void)
 {
     munmap((void *)m_addr, m_length);
     ::close(m_fd);
+
+    m_start = m_end = m_addr = nullptr;
+    m_length = 0;
+    m_fd = -1;
     return true;
 }
 
-- 
2.43.0


From c7369a7e82d2ec93d623294804f00bef6aae6d79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:05 +0000
Subject: [PATCH 02/49] fix: mapped_file: always follow the text by a zero

The loaders parse the mapped bytes as a C string. With a file length that is
a multiple of the page size nothing terminated it and the parser read beyond
the mapping. This also makes empty files mappable.
---
 libdiskpp/src/common/mapped_file.cpp | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/libdiskpp/src/common/mapped_file.cpp b/libdiskpp/src/common/mapped_file.cpp
index 29b48a5..ff2205d 100644
--- a/libdiskpp/src/common/mapped_file.cpp
+++ b/libdiskpp/src/common/mapped_file.cpp
@@ -116,7 +116,10 @@ mapped_file::map(const std::string& name)
     }
     size_t length = sb.st_size;
 
-    void *addr = mmap(NULL, length, PROT_READ, MAP_PRIVATE, fd, 0u);
+    /* The text is handed out by mem() as a C string: reserve at least one
+     * byte more than the file has, so that a zero always follows it, also
+     * when its length is a multiple of the page size. */
+    void *addr = mmap(NULL, length+1, PROT_READ, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0u);
     if (addr == MAP_FAILED)
     {
         perror("mmap");
@@ -124,7 +127,18 @@ mapped_file::map(const std::string& name)
         return false;
     }
 
-    madvise(addr, length, MADV_SEQUENTIAL);
+    if (length > 0)
+    {
+        if (mmap(addr, length, PROT_READ, MAP_PRIVATE | MAP_FIXED, fd, 0u) == MAP_FAILED)
+        {
+            perror("mmap");
+            munmap(addr, length+1);
+            ::close(fd);
+            return false;
+        }
+
+        madvise(addr, length, MADV_SEQUENTIAL);
+    }
 
     m_fd = fd;
     m_length = length;
@@ -140,7 +154,7 @@ mapped_file::map(const std::string& name)
 bool
 mapped_file::unmap(void)
 {
-    munmap((void *)m_addr, m_length);
+    munmap((void *)m_addr, m_length+1);
     ::close(m_fd);
 
     m_start = m_end = m_addr = nullptr;
-- 
2.43.0


From db9763edde0332c2e4f14b12d78b3f98e29084c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:05 +0000
Subject: [PATCH 03/49] fix: mapped_file: end() was inverted and get_line()
 lost the last line

---
 libdiskpp/src/common/mapped_file.cpp | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/libdiskpp/src/common/mapped_file.cpp b/libdiskpp/src/common/mapped_file.cpp
index ff2205d..58db815 100644
--- a/libdiskpp/src/common/mapped_file.cpp
+++ b/libdiskpp/src/common/mapped_file.cpp
@@ -172,20 +172,24 @@ mapped_file::is_open(void) const
 bool
 mapped_file::end(void) const
 {
-    return m_start && m_start != m_end;
+    return m_start == m_end;
 }
 
 std::string
 mapped_file::get_line(void)
 {
-    auto old = m_start;
-    m_start = static_cast<const char *>(memchr(m_start, '\n', m_end - m_start));
-    if (!m_start)
+    if (end())
         throw std::out_of_range("");
 
-    m_start++;
+    auto old = m_start;
+    auto eol = static_cast<const char *>(memchr(m_start, '\n', m_end - m_start));
+    if (!eol)
+        eol = m_end;    /* last line, unterminated */
+
+    std::string ret(old, eol);
+    m_start = (eol == m_end) ? m_end : eol+1;
 
-    return std::string(old, m_start-1);
+    return ret;
 }
 
 const char *
-- 
2.43.0


From e217882838cd36a771e2a2a2264abf032d8eff67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:45 +0000
Subject: [PATCH 04/49] fix: strtot: a missing number is an error, not a zero

---
 libdiskpp/include/diskpp/loaders/strtot.hpp | 25 +++++++++++++++++----
 1 file changed, 21 insertions(+), 4 deletions(-)

diff --git a/libdiskpp/include/diskpp/loaders/strtot.hpp b/libdiskpp/include/diskpp/loaders/strtot.hpp
index c58ee67..dbbe203 100644
--- a/libdiskpp/include/diskpp/loaders/strtot.hpp
+++ b/libdiskpp/include/diskpp/loaders/strtot.hpp
@@ -53,8 +53,21 @@
 #pragma once
 
 #include <sstream>
+#include <stdexcept>
 #include <stdlib.h>
 
+/* The strtoX() functions return zero and do not advance if there is no
+ * number to read: a zero which is not in the file must not enter the mesh. */
+template<typename T>
+T
+strtot_checked(const char *str, const char *end, T val)
+{
+    if (end == str)
+        throw std::invalid_argument("strtot: no number to read");
+
+    return val;
+}
+
 template<typename T>
 T
 inline
@@ -71,7 +84,8 @@ inline
 double
 strtot(const char *str, char **endptr)
 {
-    return strtod(str, endptr);
+    double val = strtod(str, endptr);
+    return strtot_checked(str, *endptr, val);
 }
 
 template<>
@@ -79,7 +93,8 @@ inline
 float
 strtot(const char *str, char **endptr)
 {
-    return strtof(str, endptr);
+    float val = strtof(str, endptr);
+    return strtot_checked(str, *endptr, val);
 }
 
 template<>
@@ -87,7 +102,8 @@ inline
 long double
 strtot(const char *str, char **endptr)
 {
-    return strtold(str, endptr);
+    long double val = strtold(str, endptr);
+    return strtot_checked(str, *endptr, val);
 }
 
 template<>
@@ -95,5 +111,6 @@ inline
 size_t
 strtot(const char *str, char **endptr)
 {
-    return strtoul(str, endptr, 10);
+    size_t val = strtoul(str, endptr, 10);
+    return strtot_checked(str, *endptr, val);
 }
-- 
2.43.0


From 6aeb143ff57e52fb8f0895864b807b13db63be22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:45 +0000
Subject: [PATCH 05/49] fix: Netgen and cartesian 3D loaders: check that the
 file was opened

---
 libdiskpp/include/diskpp/loaders/loader_cartesian.hpp |  5 +++++
 libdiskpp/include/diskpp/loaders/loader_netgen.hpp    | 10 ++++++++++
 2 files changed, 15 insertions(+)

diff --git a/libdiskpp/include/diskpp/loaders/loader_cartesian.hpp b/libdiskpp/include/diskpp/loaders/loader_cartesian.hpp
index df34061..03708c4 100644
--- a/libdiskpp/include/diskpp/loaders/loader_cartesian.hpp
+++ b/libdiskpp/include/diskpp/loaders/loader_cartesian.hpp
@@ -131,6 +131,11 @@ class cartesian_mesh_loader<T, 3> : public mesh_loader<cartesian_mesh<T, 3>>
         size_t lines, linecount;
 
         mapped_file mf(filename);
+        if (!mf.is_open())
+        {
+            std::cout << "Can't open '" << filename << "'" << std::endl;
+            return false;
+        }
 
         // std::cout << green << " * * * Reading NETGEN format mesh * * * ";
         // std::cout << nocolor << std::endl;
diff --git a/libdiskpp/include/diskpp/loaders/loader_netgen.hpp b/libdiskpp/include/diskpp/loaders/loader_netgen.hpp
index a05f33d..3e8eb8d 100644
--- a/libdiskpp/include/diskpp/loaders/loader_netgen.hpp
+++ b/libdiskpp/include/diskpp/loaders/loader_netgen.hpp
@@ -117,6 +117,11 @@ class netgen_mesh_loader<T, 2> : public mesh_loader<simplicial_mesh<T, 2>>
         size_t lines, linecount;
 
         mapped_file mf(filename);
+        if (!mf.is_open())
+        {
+            std::cout << "Can't open '" << filename << "'" << std::endl;
+            return false;
+        }
 
         // std::cout << green << " * * * Reading NETGEN format mesh * * * ";
         // std::cout << nocolor << std::endl;
@@ -331,6 +336,11 @@ class netgen_mesh_loader<T, 3> : public mesh_loader<simplicial_mesh<T, 3>>
         size_t lines, linecount;
 
         mapped_file mf(filename);
+        if (!mf.is_open())
+        {
+            std::cout << "Can't open '" << filename << "'" << std::endl;
+            return false;
+        }
 
         /************************ Read points ************************/
         linecount = 0;
-- 
2.43.0


From ab72e79ed28bf2913815811f863b9ac66a774376 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:45 +0000
Subject: [PATCH 06/49] fix: Netgen and cartesian loaders: check the point
 indices

---
 .../diskpp/loaders/loader_cartesian.hpp        |  4 ++++
 .../include/diskpp/loaders/loader_netgen.hpp   |  4 ++++
 .../include/diskpp/loaders/loader_utils.hpp    | 18 ++++++++++++++++++
 3 files changed, 26 insertions(+)

diff --git a/libdiskpp/include/diskpp/loaders/loader_cartesian.hpp b/libdiskpp/include/diskpp/loaders/loader_cartesian.hpp
index 03708c4..8fb28b0 100644
--- a/libdiskpp/include/diskpp/loaders/loader_cartesian.hpp
+++ b/libdiskpp/include/diskpp/loaders/loader_cartesian.hpp
@@ -198,6 +198,7 @@ class cartesian_mesh_loader<T, 3> : public mesh_loader<cartesian_mesh<T, 3>>
             }
 
             auto t = priv::read_hexahedron_line<size_t>(endptr, &endptr);
+            std::apply([&](auto... p) { priv::check_indices(points.size(), p...); }, t);
 
             disk::point_identifier<3> p0(std::get<0>(t));
             disk::point_identifier<3> p1(std::get<1>(t));
@@ -256,6 +257,7 @@ class cartesian_mesh_loader<T, 3> : public mesh_loader<cartesian_mesh<T, 3>>
             }
 
             auto t = priv::read_hex_face_line<size_t>(endptr, &endptr);
+            std::apply([&](auto... p) { priv::check_indices(points.size(), p...); }, t);
 
             disk::point_identifier<3> p0(std::get<0>(t));
             disk::point_identifier<3> p1(std::get<1>(t));
@@ -436,6 +438,7 @@ class cartesian_mesh_loader<T, 2> : public mesh_loader<cartesian_mesh<T, 2>>
             }
 
             auto t = priv::read_quad_line<size_t>(endptr, &endptr);
+            std::apply([&](auto... p) { priv::check_indices(points.size(), p...); }, t);
 
             disk::point_identifier<2> p0(std::get<0>(t));
             disk::point_identifier<2> p1(std::get<1>(t));
@@ -475,6 +478,7 @@ class cartesian_mesh_loader<T, 2> : public mesh_loader<cartesian_mesh<T, 2>>
             }
 
             auto t = priv::read_quad_face_line<size_t>(endptr, &endptr);
+            std::apply([&](auto... p) { priv::check_indices(points.size(), p...); }, t);
 
             disk::point_identifier<2> p0(std::get<0>(t));
             disk::point_identifier<2> p1(std::get<1>(t));
diff --git a/libdiskpp/include/diskpp/loaders/loader_netgen.hpp b/libdiskpp/include/diskpp/loaders/loader_netgen.hpp
index 3e8eb8d..19346dc 100644
--- a/libdiskpp/include/diskpp/loaders/loader_netgen.hpp
+++ b/libdiskpp/include/diskpp/loaders/loader_netgen.hpp
@@ -182,6 +182,7 @@ class netgen_mesh_loader<T, 2> : public mesh_loader<simplicial_mesh<T, 2>>
             }
 
             auto t = priv::read_triangle_line<size_t>(endptr, &endptr);
+            priv::check_indices(points.size(), std::get<1>(t), std::get<2>(t), std::get<3>(t));
 
             disk::point_identifier<2> p0(std::get<1>(t));
             disk::point_identifier<2> p1(std::get<2>(t));
@@ -219,6 +220,7 @@ class netgen_mesh_loader<T, 2> : public mesh_loader<simplicial_mesh<T, 2>>
             }
 
             auto t = priv::read_edge_line<size_t>(endptr, &endptr);
+            priv::check_indices(points.size(), std::get<1>(t), std::get<2>(t));
 
             disk::point_identifier<2> p0(std::get<1>(t));
             disk::point_identifier<2> p1(std::get<2>(t));
@@ -400,6 +402,7 @@ class netgen_mesh_loader<T, 3> : public mesh_loader<simplicial_mesh<T, 3>>
             }
 
             auto t = priv::read_tetrahedron_line<size_t>(endptr, &endptr);
+            priv::check_indices(points.size(), std::get<1>(t), std::get<2>(t), std::get<3>(t), std::get<4>(t));
 
             auto                      subdomain_num = std::get<0>(t);
             disk::point_identifier<3> p0(std::get<1>(t));
@@ -455,6 +458,7 @@ class netgen_mesh_loader<T, 3> : public mesh_loader<simplicial_mesh<T, 3>>
             }
 
             auto t = priv::read_triangle_line<size_t>(endptr, &endptr);
+            priv::check_indices(points.size(), std::get<1>(t), std::get<2>(t), std::get<3>(t));
 
             auto                      bnd_id = std::get<0>(t);
             disk::point_identifier<3> p0(std::get<1>(t));
diff --git a/libdiskpp/include/diskpp/loaders/loader_utils.hpp b/libdiskpp/include/diskpp/loaders/loader_utils.hpp
index 0c07bff..fd43d03 100644
--- a/libdiskpp/include/diskpp/loaders/loader_utils.hpp
+++ b/libdiskpp/include/diskpp/loaders/loader_utils.hpp
@@ -31,6 +31,7 @@
 
 #pragma once
 
+#include <stdexcept>
 #include <thread>
 #include <vector>
 
@@ -150,6 +151,23 @@ expect(std::ifstream& ifs, const std::string& str)
 namespace priv
 {
 
+/* Throw if one of the indices read from a mesh file does not denote one of
+ * the 'size' items it is supposed to denote. */
+template<typename... Idx>
+void
+check_indices(size_t size, Idx... idx)
+{
+    if (not((size_t(idx) < size) and ...))
+        throw std::out_of_range("Mesh file: index out of range");
+}
+
+inline void
+check_indices(size_t size, const std::vector<size_t>& idx)
+{
+    for (auto i : idx)
+        check_indices(size, i);
+}
+
 template<typename T>
 void
 sort_uniq(std::vector<T>& v)
-- 
2.43.0


From 0bb58a8d41d38f57a982b4757bbd9dc10a595230 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:59 +0000
Subject: [PATCH 07/49] fix: mesh loading succeeds only if the mesh could be
 built

---
 libdiskpp/include/diskpp/loaders/loader.hpp   | 30 ++++++++++---------
 .../include/diskpp/loaders/loader_medit.hpp   |  2 +-
 2 files changed, 17 insertions(+), 15 deletions(-)

diff --git a/libdiskpp/include/diskpp/loaders/loader.hpp b/libdiskpp/include/diskpp/loaders/loader.hpp
index f29ebd5..236f5fd 100644
--- a/libdiskpp/include/diskpp/loaders/loader.hpp
+++ b/libdiskpp/include/diskpp/loaders/loader.hpp
@@ -114,8 +114,7 @@ load_mesh(const char* filename, LT& loader, MT& msh)
     if (!success)
         return false;
 
-    loader.populate_mesh(msh);
-    return true;
+    return loader.populate_mesh(msh);
 }
 
 } // namespace priv
@@ -314,10 +313,11 @@ dispatch_all_meshes(const char* mesh_filename, Function func, Args&&... args)
         std::cout << "Guessed mesh format: GMSH 2D simplicials" << std::endl;
         disk::simplicial_mesh<T, 2>                             msh;
         disk::gmsh_geometry_loader<disk::simplicial_mesh<T, 2>> loader;
-        loader.read_mesh(mesh_filename);
-        loader.populate_mesh(msh);
-        func(msh, args...);
-        return 0;
+        if (loader.read_mesh(mesh_filename) and loader.populate_mesh(msh))
+        {
+            func(msh, args...);
+            return 0;
+        }
     }
 
     /* GMSH 3D simplicials */
@@ -326,10 +326,11 @@ dispatch_all_meshes(const char* mesh_filename, Function func, Args&&... args)
         std::cout << "Guessed mesh format: GMSH 3D simplicials" << std::endl;
         disk::simplicial_mesh<T, 3>                             msh;
         disk::gmsh_geometry_loader<disk::simplicial_mesh<T, 3>> loader;
-        loader.read_mesh(mesh_filename);
-        loader.populate_mesh(msh);
-        func(msh, args...);
-        return 0;
+        if (loader.read_mesh(mesh_filename) and loader.populate_mesh(msh))
+        {
+            func(msh, args...);
+            return 0;
+        }
     }
 
     /* GMSH 3D generic */
@@ -338,10 +339,11 @@ dispatch_all_meshes(const char* mesh_filename, Function func, Args&&... args)
         std::cout << "Guessed mesh format: GMSH 3D general elements" << std::endl;
         disk::generic_mesh<T, 3>                             msh;
         disk::gmsh_geometry_loader<disk::generic_mesh<T, 3>> loader;
-        loader.read_mesh(mesh_filename);
-        loader.populate_mesh(msh);
-        func(msh, args...);
-        return 0;
+        if (loader.read_mesh(mesh_filename) and loader.populate_mesh(msh))
+        {
+            func(msh, args...);
+            return 0;
+        }
     }
 #endif
 
diff --git a/libdiskpp/include/diskpp/loaders/loader_medit.hpp b/libdiskpp/include/diskpp/loaders/loader_medit.hpp
index f7245cf..b4e4f36 100644
--- a/libdiskpp/include/diskpp/loaders/loader_medit.hpp
+++ b/libdiskpp/include/diskpp/loaders/loader_medit.hpp
@@ -708,7 +708,7 @@ class medit_mesh_loader<T, 3> : public mesh_loader<generic_mesh<T, 3>>
             storage->boundary_info[conv_table[m_boundary_edges[i][0]]] = bi;
         }
 
-        return false;
+        return true;
     }
 };
 
-- 
2.43.0


From 72e09b8e4e5741de425fcf2043fcad18f4de68a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:20 +0000
Subject: [PATCH 08/49] fix: FVCA, Medit and poly loaders: stop on read errors
 and truncated files

---
 .../include/diskpp/loaders/loader_fvca5.hpp   |  6 ++++
 .../include/diskpp/loaders/loader_fvca6.hpp   | 14 +++++++++-
 .../include/diskpp/loaders/loader_medit.hpp   | 28 +++++++++++++++++--
 .../include/diskpp/loaders/loader_poly.hpp    | 28 +++++++++++++++++--
 4 files changed, 71 insertions(+), 5 deletions(-)

diff --git a/libdiskpp/include/diskpp/loaders/loader_fvca5.hpp b/libdiskpp/include/diskpp/loaders/loader_fvca5.hpp
index 843b5a9..0c003f8 100644
--- a/libdiskpp/include/diskpp/loaders/loader_fvca5.hpp
+++ b/libdiskpp/include/diskpp/loaders/loader_fvca5.hpp
@@ -398,6 +398,12 @@ class fvca5_mesh_loader<T, 2> : public mesh_loader<generic_mesh<T, 2>>
         {
             bool success = fvca5_parse_block();
 
+            if (ifs.bad())
+            {
+                std::cout << "Error reading " << filename << std::endl;
+                success = false;
+            }
+
             if (not success)
             {
                 m_points.clear();
diff --git a/libdiskpp/include/diskpp/loaders/loader_fvca6.hpp b/libdiskpp/include/diskpp/loaders/loader_fvca6.hpp
index fa621fe..61d4ece 100644
--- a/libdiskpp/include/diskpp/loaders/loader_fvca6.hpp
+++ b/libdiskpp/include/diskpp/loaders/loader_fvca6.hpp
@@ -106,6 +106,10 @@ class fvca6_mesh_loader<T,3> : public mesh_loader<generic_mesh<T, 3>>
             return false;
         }
 
+        /* Whatever can't be read, because the file ends too early, because it
+         * holds something else or because of an I/O error, makes reading fail. */
+        ifs.exceptions(std::ios_base::failbit | std::ios_base::badbit);
+
         /* Apparently the first 16 lines of the file are comments or
          * information repeated elsewhere: throw them away */
 
@@ -244,7 +248,15 @@ public:
     {
         if (this->verbose())
             std::cout << " *** READING FVCA6 3D MESH ***" << std::endl;
-        return fvca6_read(s);
+        try
+        {
+            return fvca6_read(s);
+        }
+        catch (const std::ios_base::failure& e)
+        {
+            std::cout << "Error reading " << s << ": " << e.what() << std::endl;
+            return false;
+        }
     }
 
     bool populate_mesh(mesh_type& msh)
diff --git a/libdiskpp/include/diskpp/loaders/loader_medit.hpp b/libdiskpp/include/diskpp/loaders/loader_medit.hpp
index b4e4f36..b96210f 100644
--- a/libdiskpp/include/diskpp/loaders/loader_medit.hpp
+++ b/libdiskpp/include/diskpp/loaders/loader_medit.hpp
@@ -200,6 +200,10 @@ class medit_mesh_loader<T, 2> : public mesh_loader<generic_mesh<T, 2>>
             return false;
         }
 
+        /* Whatever can't be read, because the file ends too early, because it
+         * holds something else or because of an I/O error, makes reading fail. */
+        ifs.exceptions(std::ios_base::failbit | std::ios_base::badbit);
+
         ifs >> keyword;
         if (keyword != "MeshVersionFormatted")
         {
@@ -284,7 +288,15 @@ class medit_mesh_loader<T, 2> : public mesh_loader<generic_mesh<T, 2>>
         if (this->verbose())
             std::cout << " *** READING MEDIT 2D MESH ***" << std::endl;
 
-        return medit_read(s);
+        try
+        {
+            return medit_read(s);
+        }
+        catch (const std::ios_base::failure& e)
+        {
+            std::cout << "Error reading " << s << ": " << e.what() << std::endl;
+            return false;
+        }
     }
 
     bool
@@ -459,6 +471,10 @@ class medit_mesh_loader<T, 3> : public mesh_loader<generic_mesh<T, 3>>
             return false;
         }
 
+        /* Whatever can't be read, because the file ends too early, because it
+         * holds something else or because of an I/O error, makes reading fail. */
+        ifs.exceptions(std::ios_base::failbit | std::ios_base::badbit);
+
         ifs >> keyword;
         if (keyword != "MeshVersionFormatted")
         {
@@ -624,7 +640,15 @@ class medit_mesh_loader<T, 3> : public mesh_loader<generic_mesh<T, 3>>
     {
         if (this->verbose())
             std::cout << " *** READING MEDIT 3D MESH ***" << std::endl;
-        return medit3d_read(s);
+        try
+        {
+            return medit3d_read(s);
+        }
+        catch (const std::ios_base::failure& e)
+        {
+            std::cout << "Error reading " << s << ": " << e.what() << std::endl;
+            return false;
+        }
     }
 
     bool
diff --git a/libdiskpp/include/diskpp/loaders/loader_poly.hpp b/libdiskpp/include/diskpp/loaders/loader_poly.hpp
index 7b9878c..7605826 100644
--- a/libdiskpp/include/diskpp/loaders/loader_poly.hpp
+++ b/libdiskpp/include/diskpp/loaders/loader_poly.hpp
@@ -166,6 +166,10 @@ class poly_mesh_loader<T, 2> : public mesh_loader<generic_mesh<T, 2>>
             return false;
         }
 
+        /* Whatever can't be read, because the file ends too early, because it
+         * holds something else or because of an I/O error, makes reading fail. */
+        ifs.exceptions(std::ios_base::failbit | std::ios_base::badbit);
+
         ifs >> keyword;
         if (keyword != "**BeginMesh")
         {
@@ -272,7 +276,15 @@ class poly_mesh_loader<T, 2> : public mesh_loader<generic_mesh<T, 2>>
     {
         if (this->verbose())
             std::cout << " *** READING POLY2D MESH ***" << std::endl;
-        return poly2d_read(s);
+        try
+        {
+            return poly2d_read(s);
+        }
+        catch (const std::ios_base::failure& e)
+        {
+            std::cout << "Error reading " << s << ": " << e.what() << std::endl;
+            return false;
+        }
     }
 
     bool
@@ -407,6 +419,10 @@ class poly_mesh_loader<T, 3> : public mesh_loader<generic_mesh<T, 3>>
             return false;
         }
 
+        /* Whatever can't be read, because the file ends too early, because it
+         * holds something else or because of an I/O error, makes reading fail. */
+        ifs.exceptions(std::ios_base::failbit | std::ios_base::badbit);
+
         ifs >> keyword;
         if (keyword != "**BeginMesh")
         {
@@ -545,7 +561,15 @@ class poly_mesh_loader<T, 3> : public mesh_loader<generic_mesh<T, 3>>
     {
         if (this->verbose())
             std::cout << " *** READING POLY3D MESH ***" << std::endl;
-        return poly3d_read(s);
+        try
+        {
+            return poly3d_read(s);
+        }
+        catch (const std::ios_base::failure& e)
+        {
+            std::cout << "Error reading " << s << ": " << e.what() << std::endl;
+            return false;
+        }
     }
 
     bool
-- 
2.43.0


From b5bda6447ac2f04738b0fbbdf5b963db7e2bf2a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:20 +0000
Subject: [PATCH 09/49] fix: FVCA6 loader: the nodes of the edges are one-based

---
 libdiskpp/include/diskpp/loaders/loader_fvca6.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/libdiskpp/include/diskpp/loaders/loader_fvca6.hpp b/libdiskpp/include/diskpp/loaders/loader_fvca6.hpp
index 61d4ece..280cab6 100644
--- a/libdiskpp/include/diskpp/loaders/loader_fvca6.hpp
+++ b/libdiskpp/include/diskpp/loaders/loader_fvca6.hpp
@@ -230,8 +230,9 @@ class fvca6_mesh_loader<T,3> : public mesh_loader<generic_mesh<T, 3>>
             if (v1 > v2)
                 std::swap(v1, v2);
 
-            auto e = edge_type({typename node_type::id_type(v1),
-                                typename node_type::id_type(v2)});
+            //convert indices to zero-based
+            auto e = edge_type({typename node_type::id_type(v1-1),
+                                typename node_type::id_type(v2-1)});
 
             m_edges.push_back( std::make_pair(i, e) );
         }
-- 
2.43.0


From 51691d75f114ced231aec478befb82c88c15c811 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:29 +0000
Subject: [PATCH 10/49] fix: mesh loaders: check the connectivity read from the
 file

---
 .../include/diskpp/loaders/loader_fvca5.hpp   | 20 ++++++++++++++
 .../include/diskpp/loaders/loader_fvca6.hpp   |  8 ++++++
 .../include/diskpp/loaders/loader_medit.hpp   | 14 ++++++++++
 .../include/diskpp/loaders/loader_poly.hpp    | 23 ++++++++++++++--
 .../include/diskpp/loaders/loader_utils.hpp   | 27 +++++++++++++++++++
 5 files changed, 90 insertions(+), 2 deletions(-)

diff --git a/libdiskpp/include/diskpp/loaders/loader_fvca5.hpp b/libdiskpp/include/diskpp/loaders/loader_fvca5.hpp
index 0c003f8..12fa7e5 100644
--- a/libdiskpp/include/diskpp/loaders/loader_fvca5.hpp
+++ b/libdiskpp/include/diskpp/loaders/loader_fvca5.hpp
@@ -437,6 +437,26 @@ class fvca5_mesh_loader<T, 2> : public mesh_loader<generic_mesh<T, 2>>
             std::cout << " *** POPULATING FVCA5 MESH ***" << std::endl;
         auto storage = msh.backend_storage();
 
+        /* A mesh has all of these, see if everything was in the file */
+        if (m_points.empty() or m_polys.empty() or m_edges.empty())
+        {
+            std::cout << "FVCA5 mesh without vertices, polygons or edges" << std::endl;
+            return false;
+        }
+
+        for (auto& p : m_polys)
+        {
+            priv::check_indices(m_points.size(), p.nodes);
+            if (p.attached_edges.size() < p.nodes.size())
+            {
+                std::cout << "FVCA5 mesh with a polygon lacking edges" << std::endl;
+                return false;
+            }
+        }
+
+        for (auto& e : m_edges)
+            priv::check_indices(m_points.size(), e[0], e[1]);
+
         /* Points */
         size_t nodes_size = m_points.size();
         storage->points   = std::move(m_points);
diff --git a/libdiskpp/include/diskpp/loaders/loader_fvca6.hpp b/libdiskpp/include/diskpp/loaders/loader_fvca6.hpp
index 280cab6..bb085da 100644
--- a/libdiskpp/include/diskpp/loaders/loader_fvca6.hpp
+++ b/libdiskpp/include/diskpp/loaders/loader_fvca6.hpp
@@ -226,6 +226,7 @@ class fvca6_mesh_loader<T,3> : public mesh_loader<generic_mesh<T, 3>>
         {
             size_t v1, v2;
             ifs >> v1 >> v2;
+            priv::check_indices(m_points.size(), v1-1, v2-1);
 
             if (v1 > v2)
                 std::swap(v1, v2);
@@ -264,6 +265,13 @@ public:
     {
         auto storage = msh.backend_storage();
 
+        priv::check_same_size(vol_to_faces, vol_to_vts);
+        priv::check_same_size(faces_to_edges, faces_to_vts);
+        priv::check_indices(faces_to_edges.size(), vol_to_faces);
+        priv::check_indices(m_points.size(), vol_to_vts);
+        priv::check_indices(m_edges.size(), faces_to_edges);
+        priv::check_indices(m_points.size(), faces_to_vts);
+
         std::vector<size_t> conv_table;
         /* Sort the edges in lexicographical order, remember their original
          * position to convert the pointers in the faces */
diff --git a/libdiskpp/include/diskpp/loaders/loader_medit.hpp b/libdiskpp/include/diskpp/loaders/loader_medit.hpp
index b96210f..c78de58 100644
--- a/libdiskpp/include/diskpp/loaders/loader_medit.hpp
+++ b/libdiskpp/include/diskpp/loaders/loader_medit.hpp
@@ -306,6 +306,9 @@ class medit_mesh_loader<T, 2> : public mesh_loader<generic_mesh<T, 2>>
             std::cout << " *** POPULATING MEDIT MESH ***" << std::endl;
         auto storage = msh.backend_storage();
 
+        for (auto& p : m_polys)
+            priv::check_indices(m_points.size(), p.nodes);
+
         /* Points */
         storage->points = std::move(m_points);
         storage->nodes  = std::move(m_nodes);
@@ -617,6 +620,7 @@ class medit_mesh_loader<T, 3> : public mesh_loader<generic_mesh<T, 3>>
         {
             size_t v1, v2;
             ifs >> v1 >> v2;
+            priv::check_indices(m_points.size(), v1, v2);
 
             if (v1 > v2)
                 std::swap(v1, v2);
@@ -656,6 +660,16 @@ class medit_mesh_loader<T, 3> : public mesh_loader<generic_mesh<T, 3>>
     {
         auto storage = msh.backend_storage();
 
+        priv::check_same_size(vol_to_faces, vol_to_vts);
+        priv::check_same_size(faces_to_edges, faces_to_vts);
+        priv::check_indices(faces_to_edges.size(), vol_to_faces);
+        priv::check_indices(m_points.size(), vol_to_vts);
+        priv::check_indices(m_edges.size(), faces_to_edges);
+        priv::check_indices(m_points.size(), faces_to_vts);
+
+        for (auto& [face, id] : m_boundary_edges)
+            priv::check_indices(faces_to_edges.size(), face);
+
         std::vector<size_t> conv_table;
         /* Sort the edges in lexicographical order, remember their original
          * position to convert the pointers in the faces */
diff --git a/libdiskpp/include/diskpp/loaders/loader_poly.hpp b/libdiskpp/include/diskpp/loaders/loader_poly.hpp
index 7605826..333e0ba 100644
--- a/libdiskpp/include/diskpp/loaders/loader_poly.hpp
+++ b/libdiskpp/include/diskpp/loaders/loader_poly.hpp
@@ -295,12 +295,20 @@ class poly_mesh_loader<T, 2> : public mesh_loader<generic_mesh<T, 2>>
 
         auto storage = msh.backend_storage();
 
+        priv::check_indices(vts.size(), edges_to_vts);
+        priv::check_same_size(faces_to_edges, faces_to_vts);
+        priv::check_indices(edges_to_vts.size(), faces_to_edges);
+        priv::check_indices(vts.size(), faces_to_vts);
+        for (auto& [id, edges] : edges_to_grp)
+            priv::check_indices(edges_to_vts.size(), edges);
+
         // Create nodes and vertices
         m_points.reserve(vts.size());
         m_nodes.reserve(vts.size());
         for (auto& [id, coor] : vts)
         {
             m_points.push_back(point_type({coor[0], coor[1]}));
+            priv::check_indices(vts.size(), id);
             m_nodes.push_back(node_type(disk::point_identifier<2>(id)));
         }
 
@@ -308,7 +316,7 @@ class poly_mesh_loader<T, 2> : public mesh_loader<generic_mesh<T, 2>>
         m_edges.reserve(edges_to_vts.size());
         for (auto& [id, vts] : edges_to_vts)
         {
-            size_t v1 = vts[0], v2 = vts[1];
+            size_t v1 = vts.at(0), v2 = vts.at(1);
 
             if (v1 > v2)
                 std::swap(v1, v2);
@@ -580,12 +588,23 @@ class poly_mesh_loader<T, 3> : public mesh_loader<generic_mesh<T, 3>>
 
         auto storage = msh.backend_storage();
 
+        priv::check_indices(vts.size(), edges_to_vts);
+        priv::check_same_size(faces_to_edges, faces_to_vts);
+        priv::check_indices(edges_to_vts.size(), faces_to_edges);
+        priv::check_indices(vts.size(), faces_to_vts);
+        for (auto& [id, faces] : faces_to_grp)
+            priv::check_indices(faces_to_edges.size(), faces);
+        priv::check_same_size(vols_to_faces, vols_to_vts);
+        priv::check_indices(faces_to_edges.size(), vols_to_faces);
+        priv::check_indices(vts.size(), vols_to_vts);
+
         // Create nodes and vertices
         m_points.reserve(vts.size());
         m_nodes.reserve(vts.size());
         for (auto& [id, coor] : vts)
         {
             m_points.push_back(point_type({coor[0], coor[1], coor[2]}));
+            priv::check_indices(vts.size(), id);
             m_nodes.push_back(node_type(disk::point_identifier<3>(id)));
         }
 
@@ -593,7 +612,7 @@ class poly_mesh_loader<T, 3> : public mesh_loader<generic_mesh<T, 3>>
         m_edges.reserve(edges_to_vts.size());
         for (auto& [id, vts] : edges_to_vts)
         {
-            size_t v1 = vts[0], v2 = vts[1];
+            size_t v1 = vts.at(0), v2 = vts.at(1);
 
             if (v1 > v2)
                 std::swap(v1, v2);
diff --git a/libdiskpp/include/diskpp/loaders/loader_utils.hpp b/libdiskpp/include/diskpp/loaders/loader_utils.hpp
index fd43d03..6bff292 100644
--- a/libdiskpp/include/diskpp/loaders/loader_utils.hpp
+++ b/libdiskpp/include/diskpp/loaders/loader_utils.hpp
@@ -168,6 +168,33 @@ check_indices(size_t size, const std::vector<size_t>& idx)
         check_indices(size, i);
 }
 
+inline void
+check_indices(size_t size, const std::vector<std::vector<size_t>>& rows)
+{
+    for (auto& row : rows)
+        check_indices(size, row);
+}
+
+/* Here the first item of the pair is the number of the row itself */
+inline void
+check_indices(size_t size, const std::vector<std::pair<size_t, std::vector<size_t>>>& rows)
+{
+    for (auto& [id, row] : rows)
+    {
+        check_indices(rows.size(), id);
+        check_indices(size, row);
+    }
+}
+
+/* Throw if two tables, which should describe the same items, do not. */
+template<typename TableA, typename TableB>
+void
+check_same_size(const TableA& a, const TableB& b)
+{
+    if (a.size() != b.size())
+        throw std::length_error("Mesh file: connectivity tables of different size");
+}
+
 template<typename T>
 void
 sort_uniq(std::vector<T>& v)
-- 
2.43.0


From 876a61a12772f1b0b235c53bea70cb4b2f93b2d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:52 +0000
Subject: [PATCH 11/49] fix: mesh loaders: start from scratch at each read,
 reset the mesh tables

---
 .../diskpp/loaders/loader_cartesian.hpp       | 21 ++++++++++--
 .../include/diskpp/loaders/loader_fvca5.hpp   | 10 +++++-
 .../include/diskpp/loaders/loader_fvca6.hpp   | 12 ++++++-
 .../include/diskpp/loaders/loader_medit.hpp   | 23 +++++++++++--
 .../include/diskpp/loaders/loader_netgen.hpp  | 19 +++++++++--
 .../include/diskpp/loaders/loader_poly.hpp    | 34 +++++++++++++++++--
 6 files changed, 109 insertions(+), 10 deletions(-)

diff --git a/libdiskpp/include/diskpp/loaders/loader_cartesian.hpp b/libdiskpp/include/diskpp/loaders/loader_cartesian.hpp
index 8fb28b0..36747c7 100644
--- a/libdiskpp/include/diskpp/loaders/loader_cartesian.hpp
+++ b/libdiskpp/include/diskpp/loaders/loader_cartesian.hpp
@@ -128,6 +128,14 @@ class cartesian_mesh_loader<T, 3> : public mesh_loader<cartesian_mesh<T, 3>>
             return false;
         }
 
+        /* Forget what a previous read may have left here */
+        points.clear();
+        nodes.clear();
+        edges.clear();
+        surfaces.clear();
+        boundary_surfaces.clear();
+        volumes.clear();
+
         size_t lines, linecount;
 
         mapped_file mf(filename);
@@ -321,7 +329,8 @@ class cartesian_mesh_loader<T, 3> : public mesh_loader<cartesian_mesh<T, 3>>
         WAIT_THREAD(quad_thread);
         WAIT_THREAD(hex_thread);
 
-        storage->boundary_info.resize(storage->surfaces.size());
+        storage->boundary_info.assign(storage->surfaces.size(), boundary_descriptor());
+        storage->subdomain_info.clear();
         for (auto& bs : boundary_surfaces)
         {
             auto position = find_element_id(storage->surfaces.begin(), storage->surfaces.end(), bs);
@@ -375,6 +384,13 @@ class cartesian_mesh_loader<T, 2> : public mesh_loader<cartesian_mesh<T, 2>>
             return false;
         }
 
+        /* Forget what a previous read may have left here */
+        points.clear();
+        nodes.clear();
+        edges.clear();
+        boundary_edges.clear();
+        surfaces.clear();
+
         size_t lines, linecount;
 
         mapped_file mf(filename);
@@ -537,7 +553,8 @@ class cartesian_mesh_loader<T, 2> : public mesh_loader<cartesian_mesh<T, 2>>
         WAIT_THREAD(edge_thread);
         WAIT_THREAD(quad_thread);
 
-        storage->boundary_info.resize(storage->edges.size());
+        storage->boundary_info.assign(storage->edges.size(), boundary_descriptor());
+        storage->subdomain_info.clear();
         for (auto& bs : boundary_edges)
         {
             auto position = find_element_id(storage->edges.begin(), storage->edges.end(), bs);
diff --git a/libdiskpp/include/diskpp/loaders/loader_fvca5.hpp b/libdiskpp/include/diskpp/loaders/loader_fvca5.hpp
index 12fa7e5..de003f9 100644
--- a/libdiskpp/include/diskpp/loaders/loader_fvca5.hpp
+++ b/libdiskpp/include/diskpp/loaders/loader_fvca5.hpp
@@ -387,6 +387,14 @@ class fvca5_mesh_loader<T, 2> : public mesh_loader<generic_mesh<T, 2>>
     bool
     parse(const std::string& filename)
     {
+        /* Forget what a previous read may have left here */
+        ifs = std::ifstream();
+        current_line = 0;
+        m_points.clear();
+        m_polys.clear();
+        m_boundary_edges.clear();
+        m_edges.clear();
+
         ifs.open(filename);
         if (not ifs.is_open())
         {
@@ -488,7 +496,7 @@ class fvca5_mesh_loader<T, 2> : public mesh_loader<generic_mesh<T, 2>>
         std::sort(edges.begin(), edges.end());
 
         /* Detect which ones are boundary edges */
-        storage->boundary_info.resize(m_edges.size());
+        storage->boundary_info.assign(m_edges.size(), boundary_descriptor());
         for (size_t i = 0; i < m_boundary_edges.size(); i++)
         {
             assert(m_boundary_edges[i][0] < m_boundary_edges[i][1]);
diff --git a/libdiskpp/include/diskpp/loaders/loader_fvca6.hpp b/libdiskpp/include/diskpp/loaders/loader_fvca6.hpp
index bb085da..acc1964 100644
--- a/libdiskpp/include/diskpp/loaders/loader_fvca6.hpp
+++ b/libdiskpp/include/diskpp/loaders/loader_fvca6.hpp
@@ -96,6 +96,15 @@ class fvca6_mesh_loader<T,3> : public mesh_loader<generic_mesh<T, 3>>
 
     bool fvca6_read(const std::string& filename)
     {
+        /* Forget what a previous read may have left here */
+        m_points.clear();
+        m_nodes.clear();
+        m_edges.clear();
+        vol_to_faces.clear();
+        vol_to_vts.clear();
+        faces_to_edges.clear();
+        faces_to_vts.clear();
+
         std::ifstream   ifs(filename);
         std::string     keyword;
         size_t          lines_to_read;
@@ -361,7 +370,8 @@ public:
          * mark_internal_faces() is not used here, as we wouldn't know which number to
          * give to the internal boundaries.
          */
-        storage->boundary_info.resize(storage->surfaces.size());
+        storage->boundary_info.assign(storage->surfaces.size(), boundary_descriptor());
+        storage->subdomain_info.clear();
         auto renumbered = renumber_hypercube_boundaries(msh);
         if (not renumbered) {
             std::cout << "Warning: unable to renumber FVCA6 mesh boundaries, ";
diff --git a/libdiskpp/include/diskpp/loaders/loader_medit.hpp b/libdiskpp/include/diskpp/loaders/loader_medit.hpp
index c78de58..ab97c63 100644
--- a/libdiskpp/include/diskpp/loaders/loader_medit.hpp
+++ b/libdiskpp/include/diskpp/loaders/loader_medit.hpp
@@ -191,6 +191,13 @@ class medit_mesh_loader<T, 2> : public mesh_loader<generic_mesh<T, 2>>
     bool
     medit_read(const std::string& filename)
     {
+        /* Forget what a previous read may have left here */
+        m_points.clear();
+        m_nodes.clear();
+        m_edges.clear();
+        m_polys.clear();
+        m_boundary_edges.clear();
+
         std::ifstream ifs(filename);
         std::string   keyword;
 
@@ -349,7 +356,8 @@ class medit_mesh_loader<T, 2> : public mesh_loader<generic_mesh<T, 2>>
         std::sort(edges.begin(), edges.end());
 
         /* Detect which ones are boundary edges */
-        storage->boundary_info.resize(edges.size());
+        storage->boundary_info.assign(edges.size(), boundary_descriptor());
+        storage->subdomain_info.clear();
         for (size_t i = 0; i < m_boundary_edges.size(); i++)
         {
             assert(m_boundary_edges[i].first[0] < m_boundary_edges[i].first[1]);
@@ -464,6 +472,16 @@ class medit_mesh_loader<T, 3> : public mesh_loader<generic_mesh<T, 3>>
     bool
     medit3d_read(const std::string& filename)
     {
+        /* Forget what a previous read may have left here */
+        m_points.clear();
+        m_nodes.clear();
+        m_edges.clear();
+        m_boundary_edges.clear();
+        vol_to_faces.clear();
+        vol_to_vts.clear();
+        faces_to_edges.clear();
+        faces_to_vts.clear();
+
         std::ifstream ifs(filename);
         std::string   keyword;
         size_t        lines_to_read;
@@ -739,7 +757,8 @@ class medit_mesh_loader<T, 3> : public mesh_loader<generic_mesh<T, 3>>
         storage->surfaces = std::move(faces);
         storage->volumes  = std::move(volumes);
 
-        storage->boundary_info.resize(storage->surfaces.size());
+        storage->boundary_info.assign(storage->surfaces.size(), boundary_descriptor());
+        storage->subdomain_info.clear();
         for (size_t i = 0; i < m_boundary_edges.size(); i++)
         {
             boundary_descriptor bi(m_boundary_edges[i][1], true);
diff --git a/libdiskpp/include/diskpp/loaders/loader_netgen.hpp b/libdiskpp/include/diskpp/loaders/loader_netgen.hpp
index 19346dc..c7f691b 100644
--- a/libdiskpp/include/diskpp/loaders/loader_netgen.hpp
+++ b/libdiskpp/include/diskpp/loaders/loader_netgen.hpp
@@ -114,6 +114,13 @@ class netgen_mesh_loader<T, 2> : public mesh_loader<simplicial_mesh<T, 2>>
             return false;
         }
 
+        /* Forget what a previous read may have left here */
+        points.clear();
+        nodes.clear();
+        edges.clear();
+        boundary_edges.clear();
+        surfaces.clear();
+
         size_t lines, linecount;
 
         mapped_file mf(filename);
@@ -278,7 +285,7 @@ class netgen_mesh_loader<T, 2> : public mesh_loader<simplicial_mesh<T, 2>>
         WAIT_THREAD(edge_thread);
         WAIT_THREAD(tri_thread);
 
-        storage->boundary_info.resize(storage->edges.size());
+        storage->boundary_info.assign(storage->edges.size(), boundary_descriptor());
         for (auto& be : boundary_edges)
         {
             auto position = find_element_id(storage->edges.begin(), storage->edges.end(), be.first);
@@ -302,7 +309,7 @@ class netgen_mesh_loader<T, 2> : public mesh_loader<simplicial_mesh<T, 2>>
 
         boundary_edges.clear();
 
-        storage->subdomain_info.resize(storage->surfaces.size());
+        storage->subdomain_info.assign(storage->surfaces.size(), subdomain_descriptor());
 
         return true;
     }
@@ -335,6 +342,14 @@ class netgen_mesh_loader<T, 3> : public mesh_loader<simplicial_mesh<T, 3>>
             return false;
         }
 
+        /* Forget what a previous read may have left here */
+        points.clear();
+        nodes.clear();
+        edges.clear();
+        surfaces.clear();
+        boundary_info.clear();
+        tmp_volumes.clear();
+
         size_t lines, linecount;
 
         mapped_file mf(filename);
diff --git a/libdiskpp/include/diskpp/loaders/loader_poly.hpp b/libdiskpp/include/diskpp/loaders/loader_poly.hpp
index 333e0ba..e7aafb0 100644
--- a/libdiskpp/include/diskpp/loaders/loader_poly.hpp
+++ b/libdiskpp/include/diskpp/loaders/loader_poly.hpp
@@ -156,6 +156,18 @@ class poly_mesh_loader<T, 2> : public mesh_loader<generic_mesh<T, 2>>
     bool
     poly2d_read(const std::string& filename)
     {
+        /* Forget what a previous read may have left here */
+        m_points.clear();
+        m_nodes.clear();
+        m_edges.clear();
+        vts.clear();
+        vts_to_grp.clear();
+        edges_to_vts.clear();
+        edges_to_grp.clear();
+        faces_to_edges.clear();
+        faces_to_vts.clear();
+        faces_to_grp.clear();
+
         std::ifstream ifs(filename);
         std::string   keyword;
         size_t        dim, version, nb_elems;
@@ -350,7 +362,8 @@ class poly_mesh_loader<T, 2> : public mesh_loader<generic_mesh<T, 2>>
         }
 
         /* Detect which ones are boundary edges */
-        storage->boundary_info.resize(edges.size());
+        storage->boundary_info.assign(edges.size(), boundary_descriptor());
+        storage->subdomain_info.clear();
         for (auto& [id, edges] : edges_to_grp)
         {
             for (auto& edge_id : edges)
@@ -417,6 +430,22 @@ class poly_mesh_loader<T, 3> : public mesh_loader<generic_mesh<T, 3>>
     bool
     poly3d_read(const std::string& filename)
     {
+        /* Forget what a previous read may have left here */
+        m_points.clear();
+        m_nodes.clear();
+        m_edges.clear();
+        vts.clear();
+        vts_to_grp.clear();
+        edges_to_vts.clear();
+        edges_to_grp.clear();
+        faces_to_edges.clear();
+        faces_to_vts.clear();
+        faces_to_grp.clear();
+        vols_to_edges.clear();
+        vols_to_faces.clear();
+        vols_to_vts.clear();
+        vols_to_grp.clear();
+
         std::ifstream ifs(filename);
         std::string   keyword;
         size_t        dim, version, nb_elems;
@@ -665,7 +694,8 @@ class poly_mesh_loader<T, 3> : public mesh_loader<generic_mesh<T, 3>>
         /* Now the faces are in their place and have correct ptrs */
 
         /* Detect which ones are boundary edges */
-        storage->boundary_info.resize(faces.size());
+        storage->boundary_info.assign(faces.size(), boundary_descriptor());
+        storage->subdomain_info.clear();
         for (auto& [id, faces] : faces_to_grp)
         {
             for (auto& face_id : faces)
-- 
2.43.0


From edc94e8fc8f1ab364cdcd5d33b8a66f1bc9dc830 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:52 +0000
Subject: [PATCH 12/49] fix: mesh building survives the failure to start a
 thread

---
 .../include/diskpp/loaders/loader_utils.hpp   | 68 ++++++++++++++++++-
 1 file changed, 67 insertions(+), 1 deletion(-)

diff --git a/libdiskpp/include/diskpp/loaders/loader_utils.hpp b/libdiskpp/include/diskpp/loaders/loader_utils.hpp
index 6bff292..3441ea2 100644
--- a/libdiskpp/include/diskpp/loaders/loader_utils.hpp
+++ b/libdiskpp/include/diskpp/loaders/loader_utils.hpp
@@ -31,8 +31,12 @@
 
 #pragma once
 
+#include <exception>
+#include <new>
 #include <stdexcept>
+#include <system_error>
 #include <thread>
+#include <utility>
 #include <vector>
 
 #include "diskpp/loaders/strtot.hpp"
@@ -229,13 +233,75 @@ read_3d_point_line(const char* str, char** endptr, T scalefactor)
     return point<T, 3>{t1 * scalefactor, t2 * scalefactor, t3 * scalefactor};
 }
 
+/* Executes a function in a thread of its own, or right here if the system has
+ * no thread to give. The thread is joined also if the scope is left because of
+ * an exception; an exception thrown by the function is rethrown by join(). */
+class worker
+{
+    std::exception_ptr error;
+    std::thread        thread;
+
+    template<typename Function>
+    void
+    run(Function& func) noexcept
+    {
+        try
+        {
+            func();
+        }
+        catch (...)
+        {
+            error = std::current_exception();
+        }
+    }
+
+  public:
+    template<typename Function>
+    explicit worker(Function func)
+    {
+        try
+        {
+            thread = std::thread([this, func]() mutable { run(func); });
+            return;
+        }
+        catch (const std::system_error&)
+        {
+        }
+        catch (const std::bad_alloc&)
+        {
+        }
+
+        run(func);
+    }
+
+    worker(const worker&) = delete;
+    worker&
+    operator=(const worker&) = delete;
+
+    void
+    join()
+    {
+        if (thread.joinable())
+            thread.join();
+
+        if (error)
+            std::rethrow_exception(std::exchange(error, nullptr));
+    }
+
+    ~worker()
+    {
+        if (thread.joinable())
+            thread.join();
+    }
+};
+
 } // namespace priv
 
 } // namespace disk
 
 #define THREADED
 #ifdef THREADED
-#define THREAD(name, body) std::thread name([&] {  body })
+#define THREAD(name, body) disk::priv::worker name([&] {  body })
 #define WAIT_THREAD(name) name.join()
 #else
 #define THREAD(name, body)                                                                                             \
-- 
2.43.0


From e2635b7ca0a87e2e2abae0cb313537eb4a1868d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:32 +0000
Subject: [PATCH 13/49] fix: FVCA6 loader: refuse faces without a normal

---
 libdiskpp/include/diskpp/loaders/loader_fvca6.hpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/libdiskpp/include/diskpp/loaders/loader_fvca6.hpp b/libdiskpp/include/diskpp/loaders/loader_fvca6.hpp
index acc1964..61635fb 100644
--- a/libdiskpp/include/diskpp/loaders/loader_fvca6.hpp
+++ b/libdiskpp/include/diskpp/loaders/loader_fvca6.hpp
@@ -281,6 +281,15 @@ public:
         priv::check_indices(m_edges.size(), faces_to_edges);
         priv::check_indices(m_points.size(), faces_to_vts);
 
+        for (auto& fv : faces_to_vts)
+        {
+            if (fv.size() < 3)
+            {
+                std::cout << "FVCA6 mesh with a face of less than 3 vertices" << std::endl;
+                return false;
+            }
+        }
+
         std::vector<size_t> conv_table;
         /* Sort the edges in lexicographical order, remember their original
          * position to convert the pointers in the faces */
-- 
2.43.0


From 5fe1158b0274bceb01ac29052cd11684c5dda942 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:08:59 +0000
Subject: [PATCH 14/49] fix: dump_netgen_format reports failures and leaves no
 damaged file

---
 libdiskpp/include/diskpp/mesh/mesh_hierarchy.hpp | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/libdiskpp/include/diskpp/mesh/mesh_hierarchy.hpp b/libdiskpp/include/diskpp/mesh/mesh_hierarchy.hpp
index e98b758..041f92c 100644
--- a/libdiskpp/include/diskpp/mesh/mesh_hierarchy.hpp
+++ b/libdiskpp/include/diskpp/mesh/mesh_hierarchy.hpp
@@ -21,7 +21,10 @@
  */
 
 #include <iostream>
+#include <cstdio>
 #include <fstream>
+#include <stdexcept>
+#include <string>
 #include <vector>
 #include <array>
 #include <map>
@@ -442,6 +445,8 @@ void
 dump_netgen_format(const disk::simplicial_mesh<T,2>& msh, const std::string& filename)
 {
     std::ofstream ofs(filename);
+    if (!ofs.is_open())
+        throw std::runtime_error("dump_netgen_format: can't open '" + filename + "'");
 
     ofs << msh.points_size() << std::endl;
     for (auto itor = msh.points_begin(); itor != msh.points_end(); itor++)
@@ -470,6 +475,14 @@ dump_netgen_format(const disk::simplicial_mesh<T,2>& msh, const std::string& fil
     }
 
     ofs.close();
+
+    /* A partial write which is retried on close leaves lines which are there
+     * twice, and the result can be a valid file holding another mesh. */
+    if (!ofs)
+    {
+        std::remove(filename.c_str());
+        throw std::runtime_error("dump_netgen_format: can't write '" + filename + "'");
+    }
 }
 
 
-- 
2.43.0


From c7b130466cc6e3b54eb9706f112f9f716e25b18b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:49:30 +0000
Subject: [PATCH 15/49] fix: triangulation of non-convex cells can be called
 from several threads

---
 .../diskpp/geometry/geometry_generic_triangulations.hpp  | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/libdiskpp/include/diskpp/geometry/geometry_generic_triangulations.hpp b/libdiskpp/include/diskpp/geometry/geometry_generic_triangulations.hpp
index 9003985..ef6f038 100644
--- a/libdiskpp/include/diskpp/geometry/geometry_generic_triangulations.hpp
+++ b/libdiskpp/include/diskpp/geometry/geometry_generic_triangulations.hpp
@@ -1,5 +1,7 @@
 #pragma once
 
+#include <mutex>
+
 #include "diskpp/common/simplicial_formula.hpp"
 
 #include "triangle_mesher.h"
@@ -57,7 +59,12 @@ triangulate_nonconvex_polygon(const generic_mesh<double,2>& msh,
     struct triangulateio tio_out;
     memset(&tio_out, '\0', sizeof(struct triangulateio));
 
-    triangulate("zpQ", &tio_in, &tio_out, nullptr);
+    {
+        /* Triangle keeps its state in global variables */
+        static std::mutex triangle_mutex;
+        std::lock_guard<std::mutex> lock(triangle_mutex);
+        triangulate("zpQ", &tio_in, &tio_out, nullptr);
+    }
 
     std::vector<triangle<double,2>> ret;
     for (int i = 0; i < tio_out.numberoftriangles; i++)
-- 
2.43.0


From 0c6c852cc1d9181f6fd6a3cd3794c77456bad54c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:23 +0000
Subject: [PATCH 16/49] fix: time steps are contiguous and the last one ends at
 the requested time

---
 .../include/diskpp/mechanics/NewtonSolver/TimeManager.hpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/libdiskpp/include/diskpp/mechanics/NewtonSolver/TimeManager.hpp b/libdiskpp/include/diskpp/mechanics/NewtonSolver/TimeManager.hpp
index 90c178e..640239d 100644
--- a/libdiskpp/include/diskpp/mechanics/NewtonSolver/TimeManager.hpp
+++ b/libdiskpp/include/diskpp/mechanics/NewtonSolver/TimeManager.hpp
@@ -134,12 +134,16 @@ class ListOfTimeStep
 
         const T delta_t = (end_time - start_time) / T(n_step);
 
+        T step_start = start_time;
         for (I i = 0; i < n_step; i++)
         {
-            if ((start_time + (i + 1) * delta_t) <= user_end_time)
+            // a step starts where the previous one ends, and the last one ends exactly at end_time
+            const T step_end = (i + 1 == n_step) ? end_time : start_time + (i + 1) * delta_t;
+            if (step_end <= user_end_time)
             {
-                const TimeStep<T> step(start_time + i * delta_t, start_time + (i + 1) * delta_t, level);
+                const TimeStep<T> step(step_start, step_end, level);
                 list_steps.push_back(step);
+                step_start = step_end;
             }
         }
     }
-- 
2.43.0


From ce5c9233891bdc7797b15b0eafd245f146aecf9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:23 +0000
Subject: [PATCH 17/49] fix: non-finite residuals and increments are detected
 with -ffast-math too

---
 libdiskpp/include/diskpp/common/finite.hpp    | 31 +++++++++++++++++++
 .../NewtonSolver/NewtonIteration.hpp          | 12 +++++--
 2 files changed, 41 insertions(+), 2 deletions(-)
 create mode 100644 libdiskpp/include/diskpp/common/finite.hpp

diff --git a/libdiskpp/include/diskpp/common/finite.hpp b/libdiskpp/include/diskpp/common/finite.hpp
new file mode 100644
index 0000000..dfc76a5
--- /dev/null
+++ b/libdiskpp/include/diskpp/common/finite.hpp
@@ -0,0 +1,31 @@
+#pragma once
+
+#include <bit>
+#include <cmath>
+#include <cstdint>
+#include <type_traits>
+
+namespace disk
+{
+
+/**
+ * @brief Test if a number is neither infinite nor NaN
+ *
+ * It looks at the representation of the number, because the compiler is allowed to remove std::isfinite if the code
+ * is compiled with -ffast-math.
+ */
+template<typename T>
+bool
+is_finite(const T& value)
+{
+    static_assert(std::is_floating_point_v<T>);
+
+    if constexpr (std::is_same_v<T, double>)
+        return (std::bit_cast<std::uint64_t>(value) & 0x7ff0000000000000ull) != 0x7ff0000000000000ull;
+    else if constexpr (std::is_same_v<T, float>)
+        return (std::bit_cast<std::uint32_t>(value) & 0x7f800000u) != 0x7f800000u;
+    else
+        return std::isfinite(value);
+}
+
+} // end disk
diff --git a/libdiskpp/include/diskpp/mechanics/NewtonSolver/NewtonIteration.hpp b/libdiskpp/include/diskpp/mechanics/NewtonSolver/NewtonIteration.hpp
index a0d124f..a11a80d 100755
--- a/libdiskpp/include/diskpp/mechanics/NewtonSolver/NewtonIteration.hpp
+++ b/libdiskpp/include/diskpp/mechanics/NewtonSolver/NewtonIteration.hpp
@@ -36,6 +36,7 @@
 #include "diskpp/adaptivity/adaptivity.hpp"
 #include "diskpp/bases/bases.hpp"
 #include "diskpp/boundary_conditions/boundary_conditions.hpp"
+#include "diskpp/common/finite.hpp"
 #include "diskpp/common/timecounter.hpp"
 #include "diskpp/mechanics/NewtonSolver/NewtonSolverComput.hpp"
 #include "diskpp/mechanics/NewtonSolver/NewtonSolverInformations.hpp"
@@ -487,7 +488,12 @@ class NewtonIteration
         // norm of the increment
         const scalar_type error_incr     = m_system_displ.norm();
         scalar_type       relative_displ = error_incr / error_un;
-        scalar_type       relative_error = residual / m_F_int;
+        scalar_type       relative_error = 0.0;
+        // without internal forces, only a vanishing residual is an equilibrium
+        if (m_F_int > scalar_type(0))
+            relative_error = residual / m_F_int;
+        else if (residual > scalar_type(0))
+            relative_error = 1;
 
         if (iter == 0)
         {
@@ -525,7 +531,9 @@ class NewtonIteration
 
         const scalar_type error = std::max(relative_displ, relative_error);
 
-        if (!isfinite(error))
+        // a NaN is lost in std::max, hence each term is tested
+        if (!is_finite(error_un) || !is_finite(error_incr) || !is_finite(residual) || !is_finite(m_F_int) ||
+            !is_finite(relative_displ) || !is_finite(relative_error))
             throw std::runtime_error("Norm of residual is not finite");
 
         if (error <= rp.m_epsilon)
-- 
2.43.0


From 49df682b74510752fb3aa629a5673a96ecf8e86c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:23 +0000
Subject: [PATCH 18/49] fix: a Newton step is rejected if its linear system
 could not be solved

---
 .../mechanics/NewtonSolver/NewtonIteration.hpp     |  3 ++-
 .../diskpp/mechanics/NewtonSolver/NewtonStep.hpp   | 14 +++++++++++++-
 2 files changed, 15 insertions(+), 2 deletions(-)

diff --git a/libdiskpp/include/diskpp/mechanics/NewtonSolver/NewtonIteration.hpp b/libdiskpp/include/diskpp/mechanics/NewtonSolver/NewtonIteration.hpp
index a11a80d..2d47ee8 100755
--- a/libdiskpp/include/diskpp/mechanics/NewtonSolver/NewtonIteration.hpp
+++ b/libdiskpp/include/diskpp/mechanics/NewtonSolver/NewtonIteration.hpp
@@ -380,7 +380,8 @@ class NewtonIteration
 
 #ifdef HAVE_INTEL_MKL
         solvers::pardiso_params<scalar_type> pparams;
-        mkl_pardiso(pparams, m_assembler.LHS, m_assembler.RHS, m_system_displ);
+        if (!mkl_pardiso(pparams, m_assembler.LHS, m_assembler.RHS, m_system_displ))
+            throw std::invalid_argument("The linear system can not be solved");
 #else
         throw std::runtime_error("Pardiso is not installed");
 #endif
diff --git a/libdiskpp/include/diskpp/mechanics/NewtonSolver/NewtonStep.hpp b/libdiskpp/include/diskpp/mechanics/NewtonSolver/NewtonStep.hpp
index 684afb3..e63fd69 100755
--- a/libdiskpp/include/diskpp/mechanics/NewtonSolver/NewtonStep.hpp
+++ b/libdiskpp/include/diskpp/mechanics/NewtonSolver/NewtonStep.hpp
@@ -208,7 +208,19 @@ class NewtonStep
             }
 
             // solve the global system
-            SolveInfo solve_info = newton_iter.solve();
+            SolveInfo solve_info;
+            try
+            {
+                solve_info = newton_iter.solve();
+            }
+            catch (const std::invalid_argument& ia)
+            {
+                std::cerr << "Invalid argument: " << ia.what() << std::endl;
+                m_convergence = false;
+                tc.toc();
+                ni.m_time_newton = tc.elapsed();
+                return ni;
+            }
             ni.updateSolveInfo(solve_info);
             // update unknowns
             ni.m_assembly_info.m_time_postpro += newton_iter.postprocess(msh, bnd, rp, degree_infos);
-- 
2.43.0


From 047eae1f2f2431bb8f2704e43d07f2662d9283e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:23 +0000
Subject: [PATCH 19/49] fix: a rejected time step does not change the state of
 the material

---
 .../include/diskpp/mechanics/NewtonSolver/NewtonSolver.hpp  | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/libdiskpp/include/diskpp/mechanics/NewtonSolver/NewtonSolver.hpp b/libdiskpp/include/diskpp/mechanics/NewtonSolver/NewtonSolver.hpp
index d95e4dd..1f913af 100644
--- a/libdiskpp/include/diskpp/mechanics/NewtonSolver/NewtonSolver.hpp
+++ b/libdiskpp/include/diskpp/mechanics/NewtonSolver/NewtonSolver.hpp
@@ -561,6 +561,9 @@ class NewtonSolver
 
             m_bnd.multiplyAllFunctionsByAFactor(current_time);
 
+            // state of the material before this attempt
+            const behavior_type behavior_backup = m_behavior;
+
             //  Newton correction
             NewtonSolverInfo newton_info = newton_step.compute(m_msh,
                                                                m_bnd,
@@ -584,6 +587,9 @@ class NewtonSolver
 
             if (!m_convergence)
             {
+                // the rejected attempt leaves no trace
+                m_behavior = behavior_backup;
+
                 if (current_step.level() + 1 > m_rp.m_sublevel)
                 {
                     std::cout << "***********************************************************" << std::endl;
-- 
2.43.0


From 443842817de277b1a9a540382199843e906f822e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:23 +0000
Subject: [PATCH 20/49] fix: every requested time is saved at the first step
 that reaches it

---
 .../include/diskpp/mechanics/NewtonSolver/NewtonSolver.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/libdiskpp/include/diskpp/mechanics/NewtonSolver/NewtonSolver.hpp b/libdiskpp/include/diskpp/mechanics/NewtonSolver/NewtonSolver.hpp
index 1f913af..07cb6ea 100644
--- a/libdiskpp/include/diskpp/mechanics/NewtonSolver/NewtonSolver.hpp
+++ b/libdiskpp/include/diskpp/mechanics/NewtonSolver/NewtonSolver.hpp
@@ -536,9 +536,10 @@ class NewtonSolver
 
         // time of saving
         bool time_saving = false;
-        if (m_rp.m_n_time_save > 0)
+        if (m_rp.m_n_time_save > 0 && !m_rp.m_time_save.empty())
         {
             time_saving = true;
+            m_rp.m_time_save.sort();
         }
 
         // Newton step
@@ -634,7 +635,9 @@ class NewtonSolver
                         this->output_stabCoeff(name + "stabCoeff.msh");
                         this->output_equivalentPlasticStrain_GP(name + "equivalentPlasticStrain_GP.msh");
 
-                        m_rp.m_time_save.pop_front();
+                        // all the times reached by this step are saved
+                        while (!m_rp.m_time_save.empty() && m_rp.m_time_save.front() < current_time + 1E-5)
+                            m_rp.m_time_save.pop_front();
                         if (m_rp.m_time_save.empty())
                             time_saving = false;
                     }
-- 
2.43.0


From 3fb82cf4e8c702a6165f302c5d757a95c66ea5ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:25 +0000
Subject: [PATCH 21/49] fix: neo-Hookean and cavitation laws start from the
 undeformed state

---
 .../mechanics/behaviors/laws/Cavitation/Cavitation_qp.hpp      | 3 +++
 .../mechanics/behaviors/laws/Neohookean/Neohookean_qp.hpp      | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/libdiskpp/include/diskpp/mechanics/behaviors/laws/Cavitation/Cavitation_qp.hpp b/libdiskpp/include/diskpp/mechanics/behaviors/laws/Cavitation/Cavitation_qp.hpp
index 64a7221..2633f7d 100644
--- a/libdiskpp/include/diskpp/mechanics/behaviors/laws/Cavitation/Cavitation_qp.hpp
+++ b/libdiskpp/include/diskpp/mechanics/behaviors/laws/Cavitation/Cavitation_qp.hpp
@@ -160,6 +160,9 @@ class Cavitation_qp : public law_qp_bones<T, DIM>
 
     Cavitation_qp(const point<scalar_type, DIM>& point, const scalar_type& weight) : law_qp_bones<T, DIM>(point, weight)
     {
+        // undeformed: F = I
+        this->m_estrain_prev = static_matrix_type3D::Identity();
+        this->m_estrain_curr = static_matrix_type3D::Identity();
     }
 
     static_matrix_type3D
diff --git a/libdiskpp/include/diskpp/mechanics/behaviors/laws/Neohookean/Neohookean_qp.hpp b/libdiskpp/include/diskpp/mechanics/behaviors/laws/Neohookean/Neohookean_qp.hpp
index 56628c7..26fc684 100644
--- a/libdiskpp/include/diskpp/mechanics/behaviors/laws/Neohookean/Neohookean_qp.hpp
+++ b/libdiskpp/include/diskpp/mechanics/behaviors/laws/Neohookean/Neohookean_qp.hpp
@@ -152,6 +152,9 @@ class Neohookean_qp : public law_qp_bones<T, DIM>
 
     Neohookean_qp(const point<scalar_type, DIM>& point, const scalar_type& weight) : law_qp_bones<T, DIM>(point, weight)
     {
+        // undeformed: F = I
+        this->m_estrain_prev = static_matrix_type3D::Identity();
+        this->m_estrain_curr = static_matrix_type3D::Identity();
     }
 
     static_matrix_type3D
-- 
2.43.0


From 87a8f7a3d7d913a28e2a90b1bfe2a9529ef4e1a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:55 +0000
Subject: [PATCH 22/49] fix: reading solver parameters stops at the end of the
 file and at bad values

---
 .../NewtonSolver/NewtonSolverParameters.hpp   | 28 +++++++++++++++++--
 1 file changed, 25 insertions(+), 3 deletions(-)

diff --git a/libdiskpp/include/diskpp/mechanics/NewtonSolver/NewtonSolverParameters.hpp b/libdiskpp/include/diskpp/mechanics/NewtonSolver/NewtonSolverParameters.hpp
index e074c5a..dd92563 100755
--- a/libdiskpp/include/diskpp/mechanics/NewtonSolver/NewtonSolverParameters.hpp
+++ b/libdiskpp/include/diskpp/mechanics/NewtonSolver/NewtonSolverParameters.hpp
@@ -26,9 +26,11 @@
 
 #pragma once
 
+#include <cctype>
 #include <fstream>
 #include <iostream>
 #include <list>
+#include <map>
 #include <string>
 #include <vector>
 
@@ -137,6 +139,9 @@ class NewtonSolverParameter
 
         ifs >> keyword;
         line++;
+        if (!ifs)
+            return false;
+
         while (keyword != "EndParameters")
         {
             if (keyword == "FaceDegree")
@@ -163,11 +168,12 @@ class NewtonSolverParameter
             {
                 int n_time_step(0);
                 ifs >> n_time_step;
+                if (n_time_step < 0)
+                    ifs.setstate(std::ios_base::failbit);
                 line++;
 
                 m_time_step.clear();
-                m_time_step.reserve(n_time_step);
-                for (int i = 0; i < n_time_step; i++)
+                for (int i = 0; ifs && i < n_time_step; i++)
                 {
                     T   time(0.0);
                     int time_step(0);
@@ -186,10 +192,12 @@ class NewtonSolverParameter
             else if (keyword == "TimeSave")
             {
                 ifs >> m_n_time_save;
+                if (m_n_time_save < 0)
+                    ifs.setstate(std::ios_base::failbit);
                 line++;
 
                 m_time_save.clear();
-                for (int i = 0; i < m_n_time_save; i++)
+                for (int i = 0; ifs && i < m_n_time_save; i++)
                 {
                     T time(0.0);
                     ifs >> time;
@@ -310,8 +318,22 @@ class NewtonSolverParameter
                 return false;
             }
 
+            /* the value has to be there, up to a blank */
+            if (!ifs || !std::isspace(ifs.peek()))
+            {
+                std::cout << "Error parsing Parameters file: bad value of " << keyword << " line: " << line
+                          << std::endl;
+                return false;
+            }
+
             ifs >> keyword;
             line++;
+
+            if (!ifs)
+            {
+                std::cout << "Error parsing Parameters file: \"EndParameters\" not found" << std::endl;
+                return false;
+            }
         }
 
         ifs.close();
-- 
2.43.0


From 6988ce4c78afa3fb09729cd597bd1aecd79db13f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:55 +0000
Subject: [PATCH 23/49] fix: getGradDegree returned the face degree

---
 .../diskpp/mechanics/NewtonSolver/NewtonSolverParameters.hpp    | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libdiskpp/include/diskpp/mechanics/NewtonSolver/NewtonSolverParameters.hpp b/libdiskpp/include/diskpp/mechanics/NewtonSolver/NewtonSolverParameters.hpp
index dd92563..e507d95 100755
--- a/libdiskpp/include/diskpp/mechanics/NewtonSolver/NewtonSolverParameters.hpp
+++ b/libdiskpp/include/diskpp/mechanics/NewtonSolver/NewtonSolverParameters.hpp
@@ -373,7 +373,7 @@ class NewtonSolverParameter
     int
     getGradDegree() const
     {
-        return m_face_degree;
+        return m_grad_degree;
     }
 
     void
-- 
2.43.0


From 589ae3bfff1a8c5b3d207e4fa16d3c4f0090b371 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:48 +0000
Subject: [PATCH 24/49] fix: conjugated_gradient reports if it did not
 converge, zero residual is no division

---
 libdiskpp/include/diskpp/solvers/solver.hpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/libdiskpp/include/diskpp/solvers/solver.hpp b/libdiskpp/include/diskpp/solvers/solver.hpp
index 7aa98c7..d302ae1 100644
--- a/libdiskpp/include/diskpp/solvers/solver.hpp
+++ b/libdiskpp/include/diskpp/solvers/solver.hpp
@@ -23,6 +23,7 @@
 #pragma once
 
 #include "diskpp/common/eigen.hpp"
+#include "diskpp/common/finite.hpp"
 #include "sol/sol.hpp"
 
 #ifdef HAVE_AGMG
@@ -66,7 +67,7 @@ struct conjugated_gradient_params
     }
 };
 
-// TODO: return false and some kind of error in case of non convergence.
+/* Returns true only if the requested tolerance was reached. */
 template<typename T>
 bool
 conjugated_gradient(const conjugated_gradient_params<T>&       cgp,
@@ -118,7 +119,8 @@ conjugated_gradient(const conjugated_gradient_params<T>&       cgp,
 
     auto max_iter = cgp.max_iter == 0 ? 2 * N : cgp.max_iter;
 
-    while (nr / nr0 > cgp.rr_tol && iter < max_iter && nr / nr0 < cgp.rr_max)
+    /* written without divisions: the initial residual can be zero */
+    while (nr > cgp.rr_tol * nr0 && iter < max_iter && nr < cgp.rr_max * nr0)
     {
         if (cgp.verbose)
         {
@@ -152,7 +154,7 @@ conjugated_gradient(const conjugated_gradient_params<T>&       cgp,
     if (cgp.verbose)
         std::cout << " -> Iteration " << iter << ", rr = " << nr / nr0 << std::endl;
 
-    return true;
+    return is_finite(nr) && nr <= cgp.rr_tol * nr0;
 }
 
 template<typename T>
@@ -165,7 +167,7 @@ conjugated_gradient(sol::state&                                lua,
     conjugated_gradient_params<T> cgp;
 
     cgp.max_iter = lua["solver"]["cg"]["max_iter"].get_or(1000);
-    cgp.rr_tol   = lua["sover"]["cg"]["rr_tol"].get_or(1e-8);
+    cgp.rr_tol   = lua["solver"]["cg"]["rr_tol"].get_or(1e-8);
     cgp.rr_max   = lua["solver"]["cg"]["rr_max"].get_or(20.0);
     cgp.verbose  = lua["solver"]["cg"]["verbose"].get_or(false);
 
-- 
2.43.0


From 2c35045dc1397b105e8fdbcffb13f3975f92841e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:48 +0000
Subject: [PATCH 25/49] fix: mkl_pardiso_ldlt reports failures

---
 libdiskpp/include/diskpp/solvers/solver.hpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/libdiskpp/include/diskpp/solvers/solver.hpp b/libdiskpp/include/diskpp/solvers/solver.hpp
index d302ae1..61d9c0c 100644
--- a/libdiskpp/include/diskpp/solvers/solver.hpp
+++ b/libdiskpp/include/diskpp/solvers/solver.hpp
@@ -260,16 +260,24 @@ mkl_pardiso_ldlt(const pardiso_params<T>&                   params,
         solver.pardisoParameterArray()[18] = -1; // report flops
 
     solver.analyzePattern(A);
+    if (solver.info() != Eigen::Success)
+    {
+        std::cerr << "ERROR: analyzePattern failed" << std::endl;
+        return false;
+    }
+
     solver.factorize(A);
     if (solver.info() != Eigen::Success)
     {
         std::cerr << "ERROR: Could not factorize the matrix" << std::endl;
+        return false;
     }
 
     x = solver.solve(b);
     if (solver.info() != Eigen::Success)
     {
         std::cerr << "ERROR: Could not solve the linear system" << std::endl;
+        return false;
     }
 
     if (params.report_factorization_Mflops)
-- 
2.43.0


From 05882a6b6765f324cef0e6918cebbe7181fb8e4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:48 +0000
Subject: [PATCH 26/49] fix: agmg_solver reports non-convergence and keeps its
 iteration limit

---
 libdiskpp/include/diskpp/solvers/agmg.hpp | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/libdiskpp/include/diskpp/solvers/agmg.hpp b/libdiskpp/include/diskpp/solvers/agmg.hpp
index e4db74a..c29a52d 100644
--- a/libdiskpp/include/diskpp/solvers/agmg.hpp
+++ b/libdiskpp/include/diskpp/solvers/agmg.hpp
@@ -146,12 +146,16 @@ template<typename T>
 class agmg_solver
 {
     agmg_solver_config<T>   config;
+    bool                    m_converged;
 
 public:
-    agmg_solver()
+    agmg_solver() : m_converged(false)
     {}
 
-    agmg_solver(const agmg_solver_config<T>& conf) : config(conf) {}
+    agmg_solver(const agmg_solver_config<T>& conf) : config(conf), m_converged(false) {}
+
+    /* true if the last call to solve() reached the tolerance */
+    bool converged() const { return m_converged; }
 
     template<int _Options, typename _Index>
     Eigen::Matrix<T, Eigen::Dynamic, 1>
@@ -199,8 +203,14 @@ public:
                 config.ijob += 100;
         }
 
+        /* On exit AGMG stores here the number of iterations it did, negative
+         * if it did not converge. */
+        int iters = config.max_iters;
+
         agmg_priv::call_agmg<T>(N, data, ja, ia, f, x, config.ijob, config.iprint,
-                                config.num_restarts, config.max_iters, config.tolerance);
+                                config.num_restarts, iters, config.tolerance);
+
+        m_converged = (iters >= 0);
 
         /* Convert back to zero-based */
         for (size_t i = 0; i < is+1; i++)
@@ -225,7 +235,7 @@ agmg_multigrid_solver(sol::state& lua,
 
     x = agmg.solve(A, b);
 
-    return true;
+    return agmg.converged();
 }
 
 }} // namespaces
-- 
2.43.0


From 2f37fb77cf9dbd44092d71deb2247c472697b315 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:24 +0000
Subject: [PATCH 27/49] fix: agmg_solver leaves the matrix of the caller intact
 if memory runs out

---
 libdiskpp/include/diskpp/solvers/agmg.hpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/libdiskpp/include/diskpp/solvers/agmg.hpp b/libdiskpp/include/diskpp/solvers/agmg.hpp
index c29a52d..04b958d 100644
--- a/libdiskpp/include/diskpp/solvers/agmg.hpp
+++ b/libdiskpp/include/diskpp/solvers/agmg.hpp
@@ -175,6 +175,11 @@ public:
         int     is      = A.innerSize();
         T *     f       = b.data();
 
+        /* Before the conversion, as it can throw */
+        Eigen::Matrix<T, Eigen::Dynamic, 1> ret;
+        ret.resize(N);
+        T * x = ret.data();
+
         /* Convert to one-based */
         for (size_t i = 0; i < is+1; i++)
             ia[i] += 1;
@@ -186,10 +191,6 @@ public:
         assert(ia != nullptr);
         assert(ja != nullptr);
 
-        Eigen::Matrix<T, Eigen::Dynamic, 1> ret;
-        ret.resize(N);
-        T * x = ret.data();
-
         if (_Options == Eigen::ColMajor)
         {
             // User asked to use the transpose, but backend is CSC: don't ask
-- 
2.43.0


From cc89d271163c2538ab690b603c1724cd9712ec19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:58 +0000
Subject: [PATCH 28/49] fix: generalized_eigenvalue_solver does not return
 success for invalid input

---
 libdiskpp/include/diskpp/solvers/feast.hpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/libdiskpp/include/diskpp/solvers/feast.hpp b/libdiskpp/include/diskpp/solvers/feast.hpp
index 3bbf288..e86f893 100644
--- a/libdiskpp/include/diskpp/solvers/feast.hpp
+++ b/libdiskpp/include/diskpp/solvers/feast.hpp
@@ -390,10 +390,11 @@ generalized_eigenvalue_solver(feast_eigensolver_params<double>& params,
                               Eigen::Matrix<double, Eigen::Dynamic, Eigen::Dynamic>& eigvecs,
                               Eigen::Matrix<double, Eigen::Dynamic, 1>& eigvals)
 {
-    if ( L.rows() != R.rows() && L.cols() != R.cols() && L.rows() == L.cols() )
+    /* As FEAST does, the return value is zero only in case of success */
+    if ( L.rows() != R.rows() || L.cols() != R.cols() || L.rows() != L.cols() )
     {
         std::cout << "Two square matrices of the same size are needed." << std::endl;
-        return false;
+        return 202; /* problem with the size of the system */
     }
 
     std::array<int, FEASTPARM_LEN>    fpm;
@@ -411,13 +412,13 @@ generalized_eigenvalue_solver(feast_eigensolver_params<double>& params,
     else
     {
         std::cout << "Invalid tolerance." << std::endl;
-        return false;
+        return 103; /* problem with the third FEAST parameter */
     }
 
     if (params.subspace_size < 1 || params.subspace_size > N)
     {
         std::cout << "Invalid subspace size." << std::endl;
-        return false;
+        return 201; /* problem with the size of the subspace */
     }
 
     double  eps;
-- 
2.43.0


From 47d9b2fcb4617e0af6c572b25ba3410f023dabf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:32 +0000
Subject: [PATCH 29/49] fix: feast: relative residuals also for intervals that
 end at zero

---
 libdiskpp/include/diskpp/solvers/feast.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libdiskpp/include/diskpp/solvers/feast.hpp b/libdiskpp/include/diskpp/solvers/feast.hpp
index e86f893..ec9a8cf 100644
--- a/libdiskpp/include/diskpp/solvers/feast.hpp
+++ b/libdiskpp/include/diskpp/solvers/feast.hpp
@@ -350,7 +350,7 @@ feast(const feast_eigensolver_params<double>& params,
         }
         
         /* Compute residual and eigenvalue trace to check convergence */
-        auto rmax = std::abs(std::max(params.min_eigval, params.max_eigval));
+        auto rmax = std::max(std::abs(params.min_eigval), std::abs(params.max_eigval));
         rdm BX = B * eigvecs;
         rdm residual = A * eigvecs - BX * eigvals.asDiagonal();
         
-- 
2.43.0


From 13e4d879be30f525406262fa87f45675d557ba74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:33 +0000
Subject: [PATCH 30/49] fix: a refused evaluation of a hyperelastic law keeps
 the current deformation

compute_whole stored the new deformation gradient before checking it, so
after a refused evaluation (J <= 0) the point showed, and update()
committed, an inadmissible deformation.
---
 .../laws/Cavitation/Cavitation_qp.hpp          | 18 ++++++++++++++----
 .../laws/Neohookean/Neohookean_qp.hpp          | 18 ++++++++++++++----
 2 files changed, 28 insertions(+), 8 deletions(-)

diff --git a/libdiskpp/include/diskpp/mechanics/behaviors/laws/Cavitation/Cavitation_qp.hpp b/libdiskpp/include/diskpp/mechanics/behaviors/laws/Cavitation/Cavitation_qp.hpp
index 2633f7d..7215c43 100644
--- a/libdiskpp/include/diskpp/mechanics/behaviors/laws/Cavitation/Cavitation_qp.hpp
+++ b/libdiskpp/include/diskpp/mechanics/behaviors/laws/Cavitation/Cavitation_qp.hpp
@@ -234,12 +234,22 @@ class Cavitation_qp : public law_qp_bones<T, DIM>
     compute_whole3D(const static_matrix_type3D& F_curr, const data_type& data, bool tangentmodulus = true)
     {
         // is always elastic
-        this->m_estrain_curr = F_curr;
+        const static_matrix_type3D F_old = this->m_estrain_curr;
+        this->m_estrain_curr             = F_curr;
 
-        const auto PK1 = this->compute_stress3D(data);
-        const auto A   = this->compute_tangent_moduli_A(data);
+        try
+        {
+            const static_matrix_type3D          PK1 = this->compute_stress3D(data);
+            const static_tensor<scalar_type, 3> A   = this->compute_tangent_moduli_A(data);
 
-        return std::make_pair(PK1, A);
+            return std::make_pair(PK1, A);
+        }
+        catch (...)
+        {
+            // the current state changes only if the evaluation succeeds
+            this->m_estrain_curr = F_old;
+            throw;
+        }
     }
 
     std::pair<static_matrix_type, static_tensor<scalar_type, DIM>>
diff --git a/libdiskpp/include/diskpp/mechanics/behaviors/laws/Neohookean/Neohookean_qp.hpp b/libdiskpp/include/diskpp/mechanics/behaviors/laws/Neohookean/Neohookean_qp.hpp
index 26fc684..00ea33c 100644
--- a/libdiskpp/include/diskpp/mechanics/behaviors/laws/Neohookean/Neohookean_qp.hpp
+++ b/libdiskpp/include/diskpp/mechanics/behaviors/laws/Neohookean/Neohookean_qp.hpp
@@ -218,12 +218,22 @@ class Neohookean_qp : public law_qp_bones<T, DIM>
     compute_whole3D(const static_matrix_type3D& F_curr, const data_type& data, bool tangentmodulus = true)
     {
         // is always elastic
-        this->m_estrain_curr = F_curr;
+        const static_matrix_type3D F_old = this->m_estrain_curr;
+        this->m_estrain_curr             = F_curr;
 
-        const auto PK1 = this->compute_stress3D(data);
-        const auto A   = this->compute_tangent_moduli_A(data);
+        try
+        {
+            const static_matrix_type3D          PK1 = this->compute_stress3D(data);
+            const static_tensor<scalar_type, 3> A   = this->compute_tangent_moduli_A(data);
 
-        return std::make_pair(PK1, A);
+            return std::make_pair(PK1, A);
+        }
+        catch (...)
+        {
+            // the current state changes only if the evaluation succeeds
+            this->m_estrain_curr = F_old;
+            throw;
+        }
     }
 
     std::pair<static_matrix_type, static_tensor<scalar_type, DIM>>
-- 
2.43.0


From c6d1af0e5b31762cfdbb3b8a32372d246ccfdfe9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:33 +0000
Subject: [PATCH 31/49] fix: a refused evaluation of a plastic law keeps the
 current state

The internal variables were overwritten before the last check, so after a
refused evaluation the point showed, and update() committed, the state of
the refused strain.
---
 .../IsotropicHardeningVMis_qp.hpp             | 55 +++++++------------
 ...inearIsotropicAndKinematicHardening_qp.hpp | 40 ++++++--------
 2 files changed, 37 insertions(+), 58 deletions(-)

diff --git a/libdiskpp/include/diskpp/mechanics/behaviors/laws/IsotropicHardeningVMis/IsotropicHardeningVMis_qp.hpp b/libdiskpp/include/diskpp/mechanics/behaviors/laws/IsotropicHardeningVMis/IsotropicHardeningVMis_qp.hpp
index b871df6..3980d05 100644
--- a/libdiskpp/include/diskpp/mechanics/behaviors/laws/IsotropicHardeningVMis/IsotropicHardeningVMis_qp.hpp
+++ b/libdiskpp/include/diskpp/mechanics/behaviors/laws/IsotropicHardeningVMis/IsotropicHardeningVMis_qp.hpp
@@ -163,18 +163,14 @@ class IsotropicHardeningVMis_qp : public law_qp_bones<T, DIM>
         const static_matrix_type3D incr_strain   = strain_curr - convertMatrix3D(this->getTotalStrainPrev());
         const static_matrix_type3D estrain_trial = this->m_estrain_prev + incr_strain; // elastic strain trial
 
-        if (nb_point == 0)
-        {
-            // We don't have points for the traction curve
-            // we suppose that we are in linear elasticity
-            // elastic evolution
-            m_is_plastic_curr = false;
-            // update
-            this->m_estrain_curr = estrain_trial;
-            m_pstrain_curr       = m_pstrain_prev;
-            m_p_curr             = m_p_prev;
-        }
-        else
+        // the current state changes only if the evaluation succeeds
+        // If we don't have points for the traction curve, we suppose that we are in linear elasticity
+        static_matrix_type3D estrain_curr    = estrain_trial;
+        static_matrix_type3D pstrain_curr    = m_pstrain_prev;
+        scalar_type          p_curr          = m_p_prev;
+        bool                 is_plastic_curr = false;
+
+        if (nb_point > 0)
         {
             // we search i0 such that p_prev \in [p_i0, p_{i0+1}]
             size_t i0 = nb_point - 2;
@@ -211,19 +207,10 @@ class IsotropicHardeningVMis_qp : public law_qp_bones<T, DIM>
             }
 
             // check
-            if (Phi_trial0 < scalar_type(0))
-            {
-                // elastic evolution
-                m_is_plastic_curr = false;
-            }
-            else
-            {
-                // plastic evolution
-                m_is_plastic_curr = true;
-            }
+            is_plastic_curr = !(Phi_trial0 < scalar_type(0));
 
             // corection
-            if (m_is_plastic_curr)
+            if (is_plastic_curr)
             {
                 const scalar_type troismu = 3 * data.getMu();
                 size_t            i1      = nb_point - 2;
@@ -252,9 +239,9 @@ class IsotropicHardeningVMis_qp : public law_qp_bones<T, DIM>
                 //           << ", Si: " << se_eq << ", dp: " << delta_p << std::endl;
 
                 // update
-                m_p_curr             = m_p_prev + delta_p;
-                this->m_estrain_curr = estrain_trial - delta_p * normal;
-                m_pstrain_curr       = m_pstrain_prev + delta_p * normal;
+                p_curr       = m_p_prev + delta_p;
+                estrain_curr = estrain_trial - delta_p * normal;
+                pstrain_curr = m_pstrain_prev + delta_p * normal;
 
                 if (tangentmodulus)
                 {
@@ -267,21 +254,19 @@ class IsotropicHardeningVMis_qp : public law_qp_bones<T, DIM>
                     Cep += 4 * mu2 * (delta_p / se_eq - 1.0 / dem) * nxn - 6.0 * mu2 * delta_p / se_eq * Pdev;
                 }
             }
-            else
-            {
-                // update
-                this->m_estrain_curr = estrain_trial;
-                m_pstrain_curr       = m_pstrain_prev;
-                m_p_curr             = m_p_prev;
-            }
         }
 
-        if (std::abs(m_pstrain_curr.trace()) > 1E-8)
+        if (std::abs(pstrain_curr.trace()) > 1E-8)
         {
-            const std::string mess = "eps_p= " + std::to_string(m_pstrain_curr.trace()) + " <= 0";
+            const std::string mess = "eps_p= " + std::to_string(pstrain_curr.trace()) + " <= 0";
             throw std::invalid_argument(mess);
         }
 
+        this->m_estrain_curr = estrain_curr;
+        m_pstrain_curr       = pstrain_curr;
+        m_p_curr             = p_curr;
+        m_is_plastic_curr    = is_plastic_curr;
+
         // std::cout << "ep:" << std::endl;
         // std::cout << m_pstrain_curr << std::endl;
         // std::cout << "ee:" << std::endl;
diff --git a/libdiskpp/include/diskpp/mechanics/behaviors/laws/LinearIsotropicAndKinematicHardening/LinearIsotropicAndKinematicHardening_qp.hpp b/libdiskpp/include/diskpp/mechanics/behaviors/laws/LinearIsotropicAndKinematicHardening/LinearIsotropicAndKinematicHardening_qp.hpp
index 0a37fa8..fa4e2f1 100644
--- a/libdiskpp/include/diskpp/mechanics/behaviors/laws/LinearIsotropicAndKinematicHardening/LinearIsotropicAndKinematicHardening_qp.hpp
+++ b/libdiskpp/include/diskpp/mechanics/behaviors/laws/LinearIsotropicAndKinematicHardening/LinearIsotropicAndKinematicHardening_qp.hpp
@@ -176,20 +176,16 @@ class LinearIsotropicAndKinematicHardening_qp : public law_qp_bones<T, DIM>
             throw std::invalid_argument(mess);
         }
 
+        // the current state changes only if the evaluation succeeds
+        static_matrix_type3D estrain_curr = estrain_trial;
+        static_matrix_type3D pstrain_curr = m_pstrain_prev;
+        scalar_type          p_curr       = m_p_prev;
+
         // check
-        if (Phi_trial < scalar_type(0))
-        {
-            // elastic evolution
-            m_is_plastic_curr = false;
-        }
-        else
-        {
-            // plastic evolution
-            m_is_plastic_curr = true;
-        }
+        const bool is_plastic_curr = !(Phi_trial < scalar_type(0));
 
         // corection
-        if (m_is_plastic_curr)
+        if (is_plastic_curr)
         {
             const scalar_type dem = 3 * data.getMu() + data.getH() + scalar_type(3.) * data.getK() / scalar_type(2.);
             const static_matrix_type3D normal  = scalar_type(3.) * se / (scalar_type(2.) * se_eq);
@@ -199,9 +195,9 @@ class LinearIsotropicAndKinematicHardening_qp : public law_qp_bones<T, DIM>
             //  std::cout << normal << std::endl;
 
             // update
-            m_p_curr             = m_p_prev + delta_p;
-            this->m_estrain_curr = estrain_trial - delta_p * normal;
-            m_pstrain_curr       = m_pstrain_prev + delta_p * normal;
+            p_curr       = m_p_prev + delta_p;
+            estrain_curr = estrain_trial - delta_p * normal;
+            pstrain_curr = m_pstrain_prev + delta_p * normal;
 
             if (tangentmodulus)
             {
@@ -214,20 +210,18 @@ class LinearIsotropicAndKinematicHardening_qp : public law_qp_bones<T, DIM>
                 Cep += 4 * mu2 * (delta_p / se_eq - 1.0 / dem) * nxn - 6.0 * mu2 * delta_p / se_eq * Pdev;
             }
         }
-        else
-        {
-            // update
-            this->m_estrain_curr = estrain_trial;
-            m_pstrain_curr       = m_pstrain_prev;
-            m_p_curr             = m_p_prev;
-        }
 
-        if ((std::abs(m_pstrain_curr.trace()) / m_pstrain_curr.norm()) > 1E-8)
+        if ((std::abs(pstrain_curr.trace()) / pstrain_curr.norm()) > 1E-8)
         {
-            const std::string mess = "eps_p= " + std::to_string(m_pstrain_curr.trace()) + " <= 0";
+            const std::string mess = "eps_p= " + std::to_string(pstrain_curr.trace()) + " <= 0";
             throw std::invalid_argument(mess);
         }
 
+        this->m_estrain_curr = estrain_curr;
+        m_pstrain_curr       = pstrain_curr;
+        m_p_curr             = p_curr;
+        m_is_plastic_curr    = is_plastic_curr;
+
         // std::cout << "ep:" << std::endl;
         // std::cout << m_pstrain_curr << std::endl;
         // std::cout << "ee:" << std::endl;
-- 
2.43.0


From 1ae9cc3b92e77534d629c5c0fbd68a896ac35525 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:33 +0000
Subject: [PATCH 32/49] fix: plastic laws accept (nearly) hydrostatic strains

The trace of the deviatoric stress was compared with its own norm, so that
for a uniform expansion, where the deviator is nothing but round-off, the
evaluation was refused. Compare with the size of the stress it is computed
from; do not divide by a norm that may be zero.
---
 .../IsotropicHardeningVMis/IsotropicHardeningVMis_qp.hpp    | 2 +-
 .../LinearIsotropicAndKinematicHardening_qp.hpp             | 6 +++---
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/libdiskpp/include/diskpp/mechanics/behaviors/laws/IsotropicHardeningVMis/IsotropicHardeningVMis_qp.hpp b/libdiskpp/include/diskpp/mechanics/behaviors/laws/IsotropicHardeningVMis/IsotropicHardeningVMis_qp.hpp
index 3980d05..ed846aa 100644
--- a/libdiskpp/include/diskpp/mechanics/behaviors/laws/IsotropicHardeningVMis/IsotropicHardeningVMis_qp.hpp
+++ b/libdiskpp/include/diskpp/mechanics/behaviors/laws/IsotropicHardeningVMis/IsotropicHardeningVMis_qp.hpp
@@ -198,7 +198,7 @@ class IsotropicHardeningVMis_qp : public law_qp_bones<T, DIM>
             // std::cout << "se_eq: " << se_eq << ", Rp " << Rp0 + H0 * (m_p_prev - p0) << ", Phi: " << Phi_trial0 <<
             // std::endl;
 
-            if ((std::abs(se.trace()) / se.norm()) > 1E-8)
+            if (std::abs(se.trace()) > 1E-8 * 2 * data.getMu() * estrain_trial.norm())
             {
                 // std::cout << std::abs(se.trace()) << ", " << se.norm() << ", " << (std::abs(se.trace()) / se.norm())
                 //           << std::endl;
diff --git a/libdiskpp/include/diskpp/mechanics/behaviors/laws/LinearIsotropicAndKinematicHardening/LinearIsotropicAndKinematicHardening_qp.hpp b/libdiskpp/include/diskpp/mechanics/behaviors/laws/LinearIsotropicAndKinematicHardening/LinearIsotropicAndKinematicHardening_qp.hpp
index fa4e2f1..44b6dee 100644
--- a/libdiskpp/include/diskpp/mechanics/behaviors/laws/LinearIsotropicAndKinematicHardening/LinearIsotropicAndKinematicHardening_qp.hpp
+++ b/libdiskpp/include/diskpp/mechanics/behaviors/laws/LinearIsotropicAndKinematicHardening/LinearIsotropicAndKinematicHardening_qp.hpp
@@ -164,13 +164,13 @@ class LinearIsotropicAndKinematicHardening_qp : public law_qp_bones<T, DIM>
         const scalar_type          se_eq         = this->sigmaeq(se);
         const scalar_type          Phi_trial     = se_eq - data.getSigma_y0() - data.getH() * m_p_prev;
 
-        if ((std::abs(X_prev.trace()) / X_prev.norm()) > 1E-8)
+        if (std::abs(X_prev.trace()) > 1E-8 * X_prev.norm())
         {
             const std::string mess = "X_trace= " + std::to_string(X_prev.trace()) + " <= 0";
             throw std::invalid_argument(mess);
         }
 
-        if ((std::abs(se.trace()) / se.norm()) > 1E-8)
+        if (std::abs(se.trace()) > 1E-8 * (2 * data.getMu() * estrain_trial.norm() + X_prev.norm()))
         {
             const std::string mess = "Se_trace= " + std::to_string(se.trace()) + " <= 0";
             throw std::invalid_argument(mess);
@@ -211,7 +211,7 @@ class LinearIsotropicAndKinematicHardening_qp : public law_qp_bones<T, DIM>
             }
         }
 
-        if ((std::abs(pstrain_curr.trace()) / pstrain_curr.norm()) > 1E-8)
+        if (std::abs(pstrain_curr.trace()) > 1E-8 * pstrain_curr.norm())
         {
             const std::string mess = "eps_p= " + std::to_string(pstrain_curr.trace()) + " <= 0";
             throw std::invalid_argument(mess);
-- 
2.43.0


From 9875f910f00cd10dab8f6b8c49613e551af92edd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:27 +0000
Subject: [PATCH 33/49] fix: report failed writes of Silo variables and
 expressions

---
 libdiskpp/include/diskpp/output/silo.hpp | 109 ++++++++++++++---------
 1 file changed, 65 insertions(+), 44 deletions(-)

diff --git a/libdiskpp/include/diskpp/output/silo.hpp b/libdiskpp/include/diskpp/output/silo.hpp
index dbf5662..4e77831 100644
--- a/libdiskpp/include/diskpp/output/silo.hpp
+++ b/libdiskpp/include/diskpp/output/silo.hpp
@@ -678,17 +678,21 @@ public:
 
         if (centering == zonal_variable_t)
         {
-            DBPutUcdvar1(m_siloDb, var.name().c_str(), mesh_name.c_str(),
-                         var.data(),
-                         var.size(), NULL, 0, DB_DOUBLE,
-                         DB_ZONECENT, NULL);
+            if ( DBPutUcdvar1(m_siloDb, var.name().c_str(), mesh_name.c_str(),
+                 var.data(), var.size(), NULL, 0, DB_DOUBLE,
+                 DB_ZONECENT, NULL) < 0 ) {
+                std::cout << "DBPutUcdvar1() failed" << std::endl;
+                return false;
+            }
         }
         else if (centering == nodal_variable_t)
         {
-            DBPutUcdvar1(m_siloDb, var.name().c_str(), mesh_name.c_str(),
-                         var.data(),
-                         var.size(), NULL, 0, DB_DOUBLE,
-                         DB_NODECENT, NULL);
+            if ( DBPutUcdvar1(m_siloDb, var.name().c_str(), mesh_name.c_str(),
+                 var.data(), var.size(), NULL, 0, DB_DOUBLE,
+                 DB_NODECENT, NULL) < 0 ) {
+                std::cout << "DBPutUcdvar1() failed" << std::endl;
+                return false;
+            }
         }
         else
             return false;
@@ -722,34 +726,42 @@ public:
         {
             std::stringstream ss;
             ss << var.name() << "_real";
-            DBPutUcdvar1(m_siloDb, ss.str().c_str(), mesh_name.c_str(),
-                         var_rep.data(),
-                         var_rep.size(), NULL, 0, DB_DOUBLE,
-                         DB_ZONECENT, NULL);
+            if ( DBPutUcdvar1(m_siloDb, ss.str().c_str(), mesh_name.c_str(),
+                 var_rep.data(), var_rep.size(), NULL, 0, DB_DOUBLE,
+                 DB_ZONECENT, NULL) < 0 ) {
+                std::cout << "DBPutUcdvar1() failed" << std::endl;
+                return false;
+            }
             ss.str(std::string());
 
             ss << var.name() << "_imag";
-            DBPutUcdvar1(m_siloDb, ss.str().c_str(), mesh_name.c_str(),
-                         var_imp.data(),
-                         var_imp.size(), NULL, 0, DB_DOUBLE,
-                         DB_ZONECENT, NULL);
+            if ( DBPutUcdvar1(m_siloDb, ss.str().c_str(), mesh_name.c_str(),
+                 var_imp.data(), var_imp.size(), NULL, 0, DB_DOUBLE,
+                 DB_ZONECENT, NULL) < 0 ) {
+                std::cout << "DBPutUcdvar1() failed" << std::endl;
+                return false;
+            }
 
         }
         else if (centering == nodal_variable_t)
         {
             std::stringstream ss;
             ss << var.name() << "_real";
-            DBPutUcdvar1(m_siloDb, ss.str().c_str(), mesh_name.c_str(),
-                         var_rep.data(),
-                         var_rep.size(), NULL, 0, DB_DOUBLE,
-                         DB_NODECENT, NULL);
+            if ( DBPutUcdvar1(m_siloDb, ss.str().c_str(), mesh_name.c_str(),
+                 var_rep.data(), var_rep.size(), NULL, 0, DB_DOUBLE,
+                 DB_NODECENT, NULL) < 0 ) {
+                std::cout << "DBPutUcdvar1() failed" << std::endl;
+                return false;
+            }
             ss.str(std::string());
 
             ss << var.name() << "_imag";
-            DBPutUcdvar1(m_siloDb, ss.str().c_str(), mesh_name.c_str(),
-                         var_imp.data(),
-                         var_imp.size(), NULL, 0, DB_DOUBLE,
-                         DB_NODECENT, NULL);
+            if ( DBPutUcdvar1(m_siloDb, ss.str().c_str(), mesh_name.c_str(),
+                 var_imp.data(), var_imp.size(), NULL, 0, DB_DOUBLE,
+                 DB_NODECENT, NULL) < 0 ) {
+                std::cout << "DBPutUcdvar1() failed" << std::endl;
+                return false;
+            }
         }
         else
             return false;
@@ -806,14 +818,14 @@ public:
                       variable_centering_t centering)
     {
         Eigen::Matrix<T, Eigen::Dynamic, 1> c = var.col(0);
-        add_variable(mesh_name, var_name+"_x", c, centering);
+        if ( !add_variable(mesh_name, var_name+"_x", c, centering) )
+            return false;
         c = var.col(1);
-        add_variable(mesh_name, var_name+"_y", c, centering);
+        if ( !add_variable(mesh_name, var_name+"_y", c, centering) )
+            return false;
         std::stringstream exprss;
         exprss << "{" << var_name << "_x" << ", " << var_name << "_y" << "}";
-        add_expression(var_name, exprss.str().c_str(), DB_VARTYPE_VECTOR);
-
-        return true;
+        return add_expression(var_name, exprss.str().c_str(), DB_VARTYPE_VECTOR);
     }
 
     template<typename T>
@@ -823,17 +835,18 @@ public:
                       variable_centering_t centering)
     {
         Eigen::Matrix<T, Eigen::Dynamic, 1> c = var.col(0);
-        add_variable(mesh_name, var_name+"_x", c, centering);
+        if ( !add_variable(mesh_name, var_name+"_x", c, centering) )
+            return false;
         c = var.col(1);
-        add_variable(mesh_name, var_name+"_y", c, centering);
+        if ( !add_variable(mesh_name, var_name+"_y", c, centering) )
+            return false;
         c = var.col(2);
-        add_variable(mesh_name, var_name+"_z", c, centering);
+        if ( !add_variable(mesh_name, var_name+"_z", c, centering) )
+            return false;
         std::stringstream exprss;
         exprss << "{" << var_name << "_x" << ", " << var_name << "_y";
         exprss << ", " << var_name << "_z" << "}";
-        add_expression(var_name, exprss.str().c_str(), DB_VARTYPE_VECTOR);
-
-        return true;
+        return add_expression(var_name, exprss.str().c_str(), DB_VARTYPE_VECTOR);
     }
 
     /* Scalar variable, REAL case */
@@ -853,17 +866,21 @@ public:
 
         if (centering == zonal_variable_t)
         {
-            DBPutUcdvar1(m_siloDb, var_name.c_str(), mesh_name.c_str(),
-                         var.data(),
-                         var.size(), NULL, 0, DB_DOUBLE,
-                         DB_ZONECENT, NULL);
+            if ( DBPutUcdvar1(m_siloDb, var_name.c_str(), mesh_name.c_str(),
+                 var.data(), var.size(), NULL, 0, DB_DOUBLE,
+                 DB_ZONECENT, NULL) < 0 ) {
+                std::cout << "DBPutUcdvar1() failed" << std::endl;
+                return false;
+            }
         }
         else if (centering == nodal_variable_t)
         {
-            DBPutUcdvar1(m_siloDb, var_name.c_str(), mesh_name.c_str(),
-                         var.data(),
-                         var.size(), NULL, 0, DB_DOUBLE,
-                         DB_NODECENT, NULL);
+            if ( DBPutUcdvar1(m_siloDb, var_name.c_str(), mesh_name.c_str(),
+                 var.data(), var.size(), NULL, 0, DB_DOUBLE,
+                 DB_NODECENT, NULL) < 0 ) {
+                std::cout << "DBPutUcdvar1() failed" << std::endl;
+                return false;
+            }
         }
         else
             return false;
@@ -907,7 +924,11 @@ public:
         ss << "def_" << expr_name;
         const char *name[] = { expr_name.c_str() };
         const char *def[] = { expr_definition.c_str() };
-        DBPutDefvars(m_siloDb, ss.str().c_str(), 1, name, &expr_type, def, NULL);
+        if ( DBPutDefvars(m_siloDb, ss.str().c_str(), 1, name, &expr_type, def, NULL) < 0 ) {
+            std::cout << "DBPutDefvars() failed" << std::endl;
+            return false;
+        }
+
         return true;
     }
 };
-- 
2.43.0


From 9463682e666dcfeda307e7ee61f720341865ef6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:27 +0000
Subject: [PATCH 34/49] fix: point variables and expressions need an open Silo
 database

---
 libdiskpp/include/diskpp/output/silo.hpp | 27 ++++++++++++++++++++++++
 1 file changed, 27 insertions(+)

diff --git a/libdiskpp/include/diskpp/output/silo.hpp b/libdiskpp/include/diskpp/output/silo.hpp
index 4e77831..27de5c4 100644
--- a/libdiskpp/include/diskpp/output/silo.hpp
+++ b/libdiskpp/include/diskpp/output/silo.hpp
@@ -891,6 +891,23 @@ public:
     bool add_variable(const std::string& mesh_name, const std::string& vars_name,
         std::vector<std::vector<double>>& vars)
     {
+        if (!m_siloDb) {
+            std::cout << "add_variable(): Database not opened." << std::endl;
+            return false;
+        }
+
+        if (vars.empty()) {
+            std::cout << "add_variable(): No components." << std::endl;
+            return false;
+        }
+
+        for (auto& v : vars) {
+            if (v.size() != vars[0].size()) {
+                std::cout << "add_variable(): Components of different size." << std::endl;
+                return false;
+            }
+        }
+
         std::vector<const double*> pvars;
         pvars.resize(vars.size());
         auto tr = [](const std::vector<double>& v) { return v.data(); };
@@ -908,6 +925,11 @@ public:
     bool add_variable(const std::string& mesh_name, const std::string& var_name,
         std::vector<double>& var)
     {
+        if (!m_siloDb) {
+            std::cout << "add_variable(): Database not opened." << std::endl;
+            return false;
+        }
+
         int nels = var.size();
 
         auto err = DBPutPointvar1(m_siloDb, var_name.c_str(), mesh_name.c_str(),
@@ -920,6 +942,11 @@ public:
                         const std::string& expr_definition,
                         int expr_type)
     {
+        if (!m_siloDb) {
+            std::cout << "add_expression(): Database not opened." << std::endl;
+            return false;
+        }
+
         std::stringstream ss;
         ss << "def_" << expr_name;
         const char *name[] = { expr_name.c_str() };
-- 
2.43.0


From f037313a7a6b6fe0594d8b5edf1705cfda2012a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:27 +0000
Subject: [PATCH 35/49] fix: release a Silo database exactly once and report a
 failed close

---
 libdiskpp/include/diskpp/output/silo.hpp | 22 ++++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/libdiskpp/include/diskpp/output/silo.hpp b/libdiskpp/include/diskpp/output/silo.hpp
index 27de5c4..884f422 100644
--- a/libdiskpp/include/diskpp/output/silo.hpp
+++ b/libdiskpp/include/diskpp/output/silo.hpp
@@ -188,8 +188,15 @@ public:
         : m_siloDb(nullptr)
     {}
 
+    /* The handle is owned and released exactly once. */
+    silo_database(const silo_database&) = delete;
+    silo_database& operator=(const silo_database&) = delete;
+
     bool create(const std::string& db_name)
     {
+        if (!close())
+            return false;
+
         m_siloDb = DBCreate(db_name.c_str(), DB_CLOBBER, DB_LOCAL, NULL, DB_PDB);
         if (m_siloDb)
             return true;
@@ -200,6 +207,9 @@ public:
 
     bool open(const std::string& db_name)
     {
+        if (!close())
+            return false;
+
         m_siloDb = DBOpen(db_name.c_str(), DB_PDB, DB_APPEND);
         if (m_siloDb)
             return true;
@@ -210,9 +220,17 @@ public:
 
     bool close()
     {
-        if (m_siloDb)
-            DBClose(m_siloDb);
+        if (!m_siloDb)
+            return true;
+
+        auto err = DBClose(m_siloDb);
         m_siloDb = NULL;
+
+        if (err < 0) {
+            std::cout << "Error closing database" << std::endl;
+            return false;
+        }
+
         return true;
     }
 
-- 
2.43.0


From 797e05846d45677228dc32be6831daa8af2539f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:27 +0000
Subject: [PATCH 36/49] fix: free the option list when a polyhedral Silo mesh
 fails

---
 libdiskpp/include/diskpp/output/silo.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/libdiskpp/include/diskpp/output/silo.hpp b/libdiskpp/include/diskpp/output/silo.hpp
index 884f422..ac24c9d 100644
--- a/libdiskpp/include/diskpp/output/silo.hpp
+++ b/libdiskpp/include/diskpp/output/silo.hpp
@@ -601,6 +601,7 @@ public:
         DBoptlist *optlist = DBMakeOptlist(1);
         if ( DBAddOption(optlist, DBOPT_PHZONELIST, (void*)zonelist_name.c_str()) < 0) {
             std::cout << "DBAddOption() failed" << std::endl;
+            DBFreeOptlist(optlist);
             return false;
         }
 
@@ -608,6 +609,7 @@ public:
         if ( DBPutUcdmesh(m_siloDb, name.c_str(), ndims, NULL, coords,
             nnodes, nzones, NULL, NULL, st::DB_TYPE, optlist) < 0) {
             std::cout << "DBPutUcdmesh() failed" << std::endl;
+            DBFreeOptlist(optlist);
             return false;
         }
 
-- 
2.43.0


From c21551977f6bee8bfbef6dd2d06a6cc4e636d5b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:49 +0000
Subject: [PATCH 37/49] fix: Neumann loads on partially clamped faces use the
 numbering of the free components

---
 .../implementation_hho/assembler_hho.hpp      | 60 ++++++++++---------
 1 file changed, 33 insertions(+), 27 deletions(-)

diff --git a/libdiskpp/include/diskpp/methods/implementation_hho/assembler_hho.hpp b/libdiskpp/include/diskpp/methods/implementation_hho/assembler_hho.hpp
index 6ed23c3..fce422e 100644
--- a/libdiskpp/include/diskpp/methods/implementation_hho/assembler_hho.hpp
+++ b/libdiskpp/include/diskpp/methods/implementation_hho/assembler_hho.hpp
@@ -2249,6 +2249,8 @@ class assembler_mechanics
 
                     if (bnd.is_dirichlet_face(face_id))
                     {
+                        // the free components are numbered consecutively
+                        size_t ind_sol = 0;
                         switch (bnd.dirichlet_boundary_type(face_id))
                         {
                             case disk::DIRICHLET:
@@ -2267,10 +2269,10 @@ class assembler_mechanics
                             {
                                 for (size_t i = 0; i < num_face_dofs; i += dimension)
                                 {
-                                    RHS(face_offset + i + 1) += neumann(i + 1);
+                                    RHS(face_offset + ind_sol++) += neumann(i + 1);
                                     if (dimension == 3)
                                     {
-                                        RHS(face_offset + i + 2) += neumann(i + 2);
+                                        RHS(face_offset + ind_sol++) += neumann(i + 2);
                                     }
                                 }
                                 break;
@@ -2279,10 +2281,10 @@ class assembler_mechanics
                             {
                                 for (size_t i = 0; i < num_face_dofs; i += dimension)
                                 {
-                                    RHS(face_offset + i) = neumann(i);
+                                    RHS(face_offset + ind_sol++) += neumann(i);
                                     if (dimension == 3)
                                     {
-                                        RHS(face_offset + i + 2) += neumann(i + 2);
+                                        RHS(face_offset + ind_sol++) += neumann(i + 2);
                                     }
                                 }
 
@@ -2294,8 +2296,8 @@ class assembler_mechanics
                                     throw std::invalid_argument("You are not in 3D");
                                 for (size_t i = 0; i < num_face_dofs; i += dimension)
                                 {
-                                    RHS(face_offset + i) += neumann(i);
-                                    RHS(face_offset + i + 1) += neumann(i + 1);
+                                    RHS(face_offset + ind_sol++) += neumann(i);
+                                    RHS(face_offset + ind_sol++) += neumann(i + 1);
                                 }
                                 break;
                             }
@@ -2305,7 +2307,7 @@ class assembler_mechanics
                                 {
                                     if (dimension == 3)
                                     {
-                                        RHS(face_offset + i + 2) += neumann(i + 2);
+                                        RHS(face_offset + ind_sol++) += neumann(i + 2);
                                     }
                                 }
                                 break;
@@ -2316,7 +2318,7 @@ class assembler_mechanics
                                     throw std::invalid_argument("You are not in 3D");
                                 for (size_t i = 0; i < num_face_dofs; i += dimension)
                                 {
-                                    RHS(face_offset + i + 1) += neumann(i + 1);
+                                    RHS(face_offset + ind_sol++) += neumann(i + 1);
                                 }
                                 break;
                             }
@@ -2326,7 +2328,7 @@ class assembler_mechanics
                                     throw std::invalid_argument("You are not in 3D");
                                 for (size_t i = 0; i < num_face_dofs; i += dimension)
                                 {
-                                    RHS(face_offset + i) += neumann(i);
+                                    RHS(face_offset + ind_sol++) += neumann(i);
                                 }
                                 break;
                             }
@@ -3828,6 +3830,8 @@ class vector_primal_hho_assembler
 
                     if (bnd.is_dirichlet_face(face_id))
                     {
+                        // the free components are numbered consecutively
+                        size_t ind_sol = 0;
                         switch (bnd.dirichlet_boundary_type(face_id))
                         {
                             case DIRICHLET:
@@ -3846,10 +3850,10 @@ class vector_primal_hho_assembler
                             {
                                 for (size_t i = 0; i < n_face_dofs; i += Mesh::dimension)
                                 {
-                                    duos.push_back(std::make_pair(compress_offset + i + 1, neumann(i + 1)));
+                                    duos.push_back(std::make_pair(compress_offset + ind_sol++, neumann(i + 1)));
                                     if (Mesh::dimension == 3)
                                     {
-                                        duos.push_back(std::make_pair(compress_offset + i + 2, neumann(i + 2)));
+                                        duos.push_back(std::make_pair(compress_offset + ind_sol++, neumann(i + 2)));
                                     }
                                 }
                                 break;
@@ -3858,10 +3862,10 @@ class vector_primal_hho_assembler
                             {
                                 for (size_t i = 0; i < n_face_dofs; i += Mesh::dimension)
                                 {
-                                    duos.push_back(std::make_pair(compress_offset + i, neumann(i)));
+                                    duos.push_back(std::make_pair(compress_offset + ind_sol++, neumann(i)));
                                     if (Mesh::dimension == 3)
                                     {
-                                        duos.push_back(std::make_pair(compress_offset + i, neumann(i + 2)));
+                                        duos.push_back(std::make_pair(compress_offset + ind_sol++, neumann(i + 2)));
                                     }
                                 }
 
@@ -3873,8 +3877,8 @@ class vector_primal_hho_assembler
                                     throw std::invalid_argument("You are not in 3D");
                                 for (size_t i = 0; i < n_face_dofs; i += Mesh::dimension)
                                 {
-                                    duos.push_back(std::make_pair(compress_offset + i, neumann(i)));
-                                    duos.push_back(std::make_pair(compress_offset + i + 1, neumann(i + 1)));
+                                    duos.push_back(std::make_pair(compress_offset + ind_sol++, neumann(i)));
+                                    duos.push_back(std::make_pair(compress_offset + ind_sol++, neumann(i + 1)));
                                 }
                                 break;
                             }
@@ -3884,7 +3888,7 @@ class vector_primal_hho_assembler
                                 {
                                     if (Mesh::dimension == 3)
                                     {
-                                        duos.push_back(std::make_pair(compress_offset + i + 2, neumann(i + 2)));
+                                        duos.push_back(std::make_pair(compress_offset + ind_sol++, neumann(i + 2)));
                                     }
                                 }
                                 break;
@@ -3895,7 +3899,7 @@ class vector_primal_hho_assembler
                                     throw std::invalid_argument("You are not in 3D");
                                 for (size_t i = 0; i < n_face_dofs; i += Mesh::dimension)
                                 {
-                                    duos.push_back(std::make_pair(compress_offset + i + 1, neumann(i + 1)));
+                                    duos.push_back(std::make_pair(compress_offset + ind_sol++, neumann(i + 1)));
                                 }
                                 break;
                             }
@@ -3905,7 +3909,7 @@ class vector_primal_hho_assembler
                                     throw std::invalid_argument("You are not in 3D");
                                 for (size_t i = 0; i < n_face_dofs; i += Mesh::dimension)
                                 {
-                                    duos.push_back(std::make_pair(compress_offset + i, neumann(i)));
+                                    duos.push_back(std::make_pair(compress_offset + ind_sol++, neumann(i)));
                                 }
                                 break;
                             }
@@ -4666,6 +4670,8 @@ class vector_mechanics_hho_assembler
 
                     if (bnd.is_dirichlet_face(face_id))
                     {
+                        // the free components are numbered consecutively
+                        size_t ind_sol = 0;
                         switch (bnd.dirichlet_boundary_type(face_id))
                         {
                             case DIRICHLET:
@@ -4684,10 +4690,10 @@ class vector_mechanics_hho_assembler
                             {
                                 for (size_t i = 0; i < n_face_dofs; i += Mesh::dimension)
                                 {
-                                    duos.push_back(std::make_pair(compress_offset + i + 1, neumann(i + 1)));
+                                    duos.push_back(std::make_pair(compress_offset + ind_sol++, neumann(i + 1)));
                                     if (Mesh::dimension == 3)
                                     {
-                                        duos.push_back(std::make_pair(compress_offset + i + 2, neumann(i + 2)));
+                                        duos.push_back(std::make_pair(compress_offset + ind_sol++, neumann(i + 2)));
                                     }
                                 }
                                 break;
@@ -4696,10 +4702,10 @@ class vector_mechanics_hho_assembler
                             {
                                 for (size_t i = 0; i < n_face_dofs; i += Mesh::dimension)
                                 {
-                                    duos.push_back(std::make_pair(compress_offset + i, neumann(i)));
+                                    duos.push_back(std::make_pair(compress_offset + ind_sol++, neumann(i)));
                                     if (Mesh::dimension == 3)
                                     {
-                                        duos.push_back(std::make_pair(compress_offset + i, neumann(i + 2)));
+                                        duos.push_back(std::make_pair(compress_offset + ind_sol++, neumann(i + 2)));
                                     }
                                 }
 
@@ -4711,8 +4717,8 @@ class vector_mechanics_hho_assembler
                                     throw std::invalid_argument("You are not in 3D");
                                 for (size_t i = 0; i < n_face_dofs; i += Mesh::dimension)
                                 {
-                                    duos.push_back(std::make_pair(compress_offset + i, neumann(i)));
-                                    duos.push_back(std::make_pair(compress_offset + i + 1, neumann(i + 1)));
+                                    duos.push_back(std::make_pair(compress_offset + ind_sol++, neumann(i)));
+                                    duos.push_back(std::make_pair(compress_offset + ind_sol++, neumann(i + 1)));
                                 }
                                 break;
                             }
@@ -4722,7 +4728,7 @@ class vector_mechanics_hho_assembler
                                 {
                                     if (Mesh::dimension == 3)
                                     {
-                                        duos.push_back(std::make_pair(compress_offset + i + 2, neumann(i + 2)));
+                                        duos.push_back(std::make_pair(compress_offset + ind_sol++, neumann(i + 2)));
                                     }
                                 }
                                 break;
@@ -4733,7 +4739,7 @@ class vector_mechanics_hho_assembler
                                     throw std::invalid_argument("You are not in 3D");
                                 for (size_t i = 0; i < n_face_dofs; i += Mesh::dimension)
                                 {
-                                    duos.push_back(std::make_pair(compress_offset + i + 1, neumann(i + 1)));
+                                    duos.push_back(std::make_pair(compress_offset + ind_sol++, neumann(i + 1)));
                                 }
                                 break;
                             }
@@ -4743,7 +4749,7 @@ class vector_mechanics_hho_assembler
                                     throw std::invalid_argument("You are not in 3D");
                                 for (size_t i = 0; i < n_face_dofs; i += Mesh::dimension)
                                 {
-                                    duos.push_back(std::make_pair(compress_offset + i, neumann(i)));
+                                    duos.push_back(std::make_pair(compress_offset + ind_sol++, neumann(i)));
                                 }
                                 break;
                             }
-- 
2.43.0


From 4e64c28ae503a30770eed14ccb37986677e964de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:02 +0000
Subject: [PATCH 38/49] fix: vector_primal_hho_assembler::take_local_solution
 compiles

---
 .../include/diskpp/methods/implementation_hho/assembler_hho.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libdiskpp/include/diskpp/methods/implementation_hho/assembler_hho.hpp b/libdiskpp/include/diskpp/methods/implementation_hho/assembler_hho.hpp
index fce422e..b3282e7 100644
--- a/libdiskpp/include/diskpp/methods/implementation_hho/assembler_hho.hpp
+++ b/libdiskpp/include/diskpp/methods/implementation_hho/assembler_hho.hpp
@@ -3180,7 +3180,7 @@ class vector_primal_hho_assembler
     {
         const auto face_id = msh.lookup(fc);
 
-        const auto n_face_dofs = num_faces_dofs(face_id);
+        const auto n_face_dofs = num_face_dofs(face_id);
 
         vector_type ret = vector_type::Zero(n_face_dofs);
 
-- 
2.43.0


From a30a74ff6d30d88041fcbed53a15a2194fb5e958 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:17 +0000
Subject: [PATCH 39/49] fix: initialize() of the assemblers drops the
 contributions of an unfinished round

---
 .../diskpp/methods/implementation_hho/assembler_hho.hpp   | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/libdiskpp/include/diskpp/methods/implementation_hho/assembler_hho.hpp b/libdiskpp/include/diskpp/methods/implementation_hho/assembler_hho.hpp
index b3282e7..8c52b72 100644
--- a/libdiskpp/include/diskpp/methods/implementation_hho/assembler_hho.hpp
+++ b/libdiskpp/include/diskpp/methods/implementation_hho/assembler_hho.hpp
@@ -640,6 +640,7 @@ class stokes_assembler
     {
         LHS = SparseMatrix<T>(system_size, system_size);
         RHS = vector_type::Zero(system_size);
+        triplets.clear();
         return;
     }
 
@@ -1035,6 +1036,7 @@ class stokes_assembler_alg
     {
         LHS           = SparseMatrix<T>(system_size, system_size);
         RHS_DIRICHLET = vector_type::Zero(system_size);
+        triplets.clear();
         return;
     }
 
@@ -2438,6 +2440,7 @@ class scalar_primal_hho_assembler
     initialize_lhs()
     {
         LHS = SparseMatrix<scalar_type>(system_size, system_size);
+        triplets.clear();
         return;
     }
 
@@ -2445,6 +2448,7 @@ class scalar_primal_hho_assembler
     initialize_rhs()
     {
         RHS = vector_type::Zero(system_size);
+        duos.clear();
         return;
     }
 
@@ -2914,6 +2918,7 @@ class vector_primal_hho_assembler
     initialize_lhs(void)
     {
         LHS = SparseMatrix<scalar_type>(system_size, system_size);
+        triplets.clear();
         return;
     }
 
@@ -2921,6 +2926,7 @@ class vector_primal_hho_assembler
     initialize_rhs(void)
     {
         RHS = vector_type::Zero(system_size);
+        duos.clear();
         return;
     }
 
@@ -4399,6 +4405,7 @@ class vector_mechanics_hho_assembler
     initialize_lhs(void)
     {
         LHS = SparseMatrix<scalar_type>(system_size, system_size);
+        triplets.clear();
         return;
     }
 
@@ -4406,6 +4413,7 @@ class vector_mechanics_hho_assembler
     initialize_rhs(void)
     {
         RHS = vector_type::Zero(system_size);
+        duos.clear();
         return;
     }
 
-- 
2.43.0


From a29f8b319206cd066bcc1a3a9aefd510139aa27e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:18 +0000
Subject: [PATCH 40/49] fix: a face with two Dirichlet conditions is counted
 once

---
 .../diskpp/boundary_conditions/boundary_conditions.hpp      | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/libdiskpp/include/diskpp/boundary_conditions/boundary_conditions.hpp b/libdiskpp/include/diskpp/boundary_conditions/boundary_conditions.hpp
index c2fc2ff..c1613c9 100644
--- a/libdiskpp/include/diskpp/boundary_conditions/boundary_conditions.hpp
+++ b/libdiskpp/include/diskpp/boundary_conditions/boundary_conditions.hpp
@@ -287,8 +287,9 @@ class BoundaryConditions
 
             const auto face_id = m_msh.lookup(bfc);
 
+            if (!is_dirichlet_face(face_id))
+                m_dirichlet_faces++;
             m_faces_is_dirichlet.at(face_id) = std::make_tuple(true, DIRICHLET, 0, bcf_id);
-            m_dirichlet_faces++;
         }
     }
 
@@ -320,8 +321,9 @@ class BoundaryConditions
 
         for (size_t face_id : list_faces)
         {
+            if (!is_dirichlet_face(face_id))
+                m_dirichlet_faces++;
             m_faces_is_dirichlet.at(face_id) = std::make_tuple(true, btype, b_id, bcf_id);
-            m_dirichlet_faces++;
         }
     }
 
-- 
2.43.0


From fcefcd7afd897143f3cfddf8bb28ed72260dc56a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:37 +0000
Subject: [PATCH 41/49] fix: stokes_assembler::assemble_alg compiles

---
 .../diskpp/methods/implementation_hho/assembler_hho.hpp       | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libdiskpp/include/diskpp/methods/implementation_hho/assembler_hho.hpp b/libdiskpp/include/diskpp/methods/implementation_hho/assembler_hho.hpp
index 8c52b72..5af6f78 100644
--- a/libdiskpp/include/diskpp/methods/implementation_hho/assembler_hho.hpp
+++ b/libdiskpp/include/diskpp/methods/implementation_hho/assembler_hho.hpp
@@ -794,14 +794,14 @@ class stokes_assembler
             if (!asm_map[i].assemble())
                 continue;
 
-            RHS(asm_map[i]) += rhs(i);
+            RHS[asm_map[i]] += rhs(i);
 
             for (size_t j = 0; j < lhs_A.cols(); j++)
             {
                 if (asm_map[j].assemble())
                     triplets.push_back(Triplet<T>(asm_map[i], asm_map[j], lhs_A(i, j)));
                 else
-                    RHS(asm_map[i]) -= lhs_A(i, j) * dirichlet_data(j);
+                    RHS[asm_map[i]] -= lhs_A(i, j) * dirichlet_data(j);
             }
         }
 
-- 
2.43.0


From a93bb53acca8197ebdfecfd96063701084028a11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:25 +0000
Subject: [PATCH 42/49] fix: mesh_hierarchy::locate_point read past the last
 mesh for the level after it

---
 libdiskpp/include/diskpp/mesh/mesh_hierarchy.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libdiskpp/include/diskpp/mesh/mesh_hierarchy.hpp b/libdiskpp/include/diskpp/mesh/mesh_hierarchy.hpp
index 041f92c..8e6b4f3 100644
--- a/libdiskpp/include/diskpp/mesh/mesh_hierarchy.hpp
+++ b/libdiskpp/include/diskpp/mesh/mesh_hierarchy.hpp
@@ -356,7 +356,7 @@ class mesh_hierarchy
     size_t
     locate_recursive(const point_type& pt, size_t cur_level, size_t max_level, size_t tri_num)
     {
-        if (max_level > meshes.size())
+        if (max_level >= meshes.size())
             throw std::invalid_argument("inexistent mesh level");
 
         if (cur_level > max_level)
-- 
2.43.0


From 214668cf687a02648d50d4b3d2c09e70074b676e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:25 +0000
Subject: [PATCH 43/49] fix: a mesh hierarchy could not be built after a build
 that ran out of memory

---
 libdiskpp/include/diskpp/mesh/mesh_hierarchy.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/libdiskpp/include/diskpp/mesh/mesh_hierarchy.hpp b/libdiskpp/include/diskpp/mesh/mesh_hierarchy.hpp
index 8e6b4f3..a2f99d0 100644
--- a/libdiskpp/include/diskpp/mesh/mesh_hierarchy.hpp
+++ b/libdiskpp/include/diskpp/mesh/mesh_hierarchy.hpp
@@ -390,6 +390,7 @@ public:
     {
         meshes.clear();
         coarse_to_fine.clear();
+        coarse_to_fine_int.clear(); /* An earlier build may have failed */
 
         meshes.push_back(initial_mesh);
 
-- 
2.43.0


From bc0bca65f89058fcfe4a851148efd8a09086b3c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:25 +0000
Subject: [PATCH 44/49] fix: mesh_hierarchy::locate_point did not find points
 on the edges of triangles because of round-off

---
 .../include/diskpp/mesh/mesh_hierarchy.hpp    | 48 ++++++++++++-------
 1 file changed, 31 insertions(+), 17 deletions(-)

diff --git a/libdiskpp/include/diskpp/mesh/mesh_hierarchy.hpp b/libdiskpp/include/diskpp/mesh/mesh_hierarchy.hpp
index a2f99d0..f545e19 100644
--- a/libdiskpp/include/diskpp/mesh/mesh_hierarchy.hpp
+++ b/libdiskpp/include/diskpp/mesh/mesh_hierarchy.hpp
@@ -22,6 +22,7 @@
 
 #include <iostream>
 #include <cstdio>
+#include <limits>
 #include <fstream>
 #include <stdexcept>
 #include <string>
@@ -329,8 +330,9 @@ class mesh_hierarchy
         return next_mesh;
     }
 
-    bool
-    is_inside(const mesh_type& msh, const mesh_triangle_type& t, const point_type& pt) const
+    /* The smallest barycentric coordinate of pt in t, negative if pt is outside. */
+    T
+    depth(const mesh_type& msh, const mesh_triangle_type& t, const point_type& pt) const
     {
         auto pts = points(msh, t);
 
@@ -348,9 +350,7 @@ class mesh_hierarchy
         auto u = (dot11 * dot02 - dot01 * dot12) * invDenom;
         auto v = (dot00 * dot12 - dot01 * dot02) * invDenom;
 
-        auto thresh = 0.0;
-
-        return (u >= (0-thresh)) && (v >= (0-thresh)) && (u + v <= (1+thresh));
+        return std::min( std::min(u, v), 1 - (u + v) );
     }
 
     size_t
@@ -365,14 +365,22 @@ class mesh_hierarchy
         auto current_mesh = meshes[cur_level];
         auto triangles = coarse_to_fine.at(cur_level-1).at(tri_num);
 
+        /* The point is in the coarse triangle. If it is on an edge, round-off
+         * can put it slightly outside all the fine triangles. */
+        auto best = triangles[0];
+        T best_depth = -std::numeric_limits<T>::max();
         for (auto& t : triangles)
         {
             auto cl = *std::next(current_mesh.cells_begin(), t);
-            if (is_inside(current_mesh, cl, pt))
-                return locate_recursive(pt, cur_level+1, max_level, t);
+            auto d = depth(current_mesh, cl, pt);
+            if (d > best_depth)
+            {
+                best = t;
+                best_depth = d;
+            }
         }
 
-        throw std::invalid_argument("point not found (s)");
+        return locate_recursive(pt, cur_level+1, max_level, best);
     }
 
 public:
@@ -416,21 +424,27 @@ public:
         if (meshes.size() == 0)
             throw std::logic_error("mesh hierarchy not built");
 
-        size_t tri_num;
-        for (tri_num = 0; tri_num < meshes[0].cells_size(); tri_num++)
+        size_t tri_num = 0;
+        T best_depth = -std::numeric_limits<T>::max();
+        for (size_t i = 0; i < meshes[0].cells_size(); i++)
         {
-            auto cl = *std::next(meshes[0].cells_begin(), tri_num);
-            if ( is_inside(meshes[0], cl, pt) )
+            auto cl = *std::next(meshes[0].cells_begin(), i);
+            auto d = depth(meshes[0], cl, pt);
+            if (d > best_depth)
             {
-                if (level > 0)
-                    return locate_recursive(pt, 1, level, tri_num);
-                else
-                    return tri_num;
+                tri_num = i;
+                best_depth = d;
             }
         }
 
+        /* Points on the edges can be slightly outside because of round-off */
+        if (best_depth < -1e4 * std::numeric_limits<T>::epsilon())
+            throw std::invalid_argument("point not found");
+
+        if (level > 0)
+            return locate_recursive(pt, 1, level, tri_num);
 
-        throw std::invalid_argument("point not found");
+        return tri_num;
     }
 
     auto meshes_begin()     const { return meshes.begin(); }
-- 
2.43.0


From ec4ec858bb4581912a3de2a87819a4dc18aa7e6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:25 +0000
Subject: [PATCH 45/49] fix: fvca5_hex_mesher::make_level kept boundary marks
 of the previous level

---
 libdiskpp/include/diskpp/mesh/meshgen.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/libdiskpp/include/diskpp/mesh/meshgen.hpp b/libdiskpp/include/diskpp/mesh/meshgen.hpp
index 3d70a7a..65402b0 100644
--- a/libdiskpp/include/diskpp/mesh/meshgen.hpp
+++ b/libdiskpp/include/diskpp/mesh/meshgen.hpp
@@ -795,6 +795,7 @@ public:
         std::sort(storage->edges.begin(), storage->edges.end());
 
         /* Boundary edges */
+        storage->boundary_info.clear();
         storage->boundary_info.resize( storage->edges.size() );
         for (const auto& [boundary, edges] : hm.boundary_edges)
         {
-- 
2.43.0


From 0da57973eae1435299bf4b53fbb34fee12e6aaa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:25 +0000
Subject: [PATCH 46/49] fix: uniform_mesh_loader kept boundary marks of the
 previous mesh

---
 libdiskpp/include/diskpp/loaders/loader_uniform.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/libdiskpp/include/diskpp/loaders/loader_uniform.hpp b/libdiskpp/include/diskpp/loaders/loader_uniform.hpp
index e25e8b3..a394f1d 100644
--- a/libdiskpp/include/diskpp/loaders/loader_uniform.hpp
+++ b/libdiskpp/include/diskpp/loaders/loader_uniform.hpp
@@ -87,6 +87,7 @@ class uniform_mesh_loader<T, 1> : public mesh_loader<generic_mesh<T, 1>>
         for (size_t i = 0; i < num_nodes; i++)
             storage->nodes.at(i) = node_type(point_identifier<1>(i));
 
+        storage->boundary_info.clear();
         storage->boundary_info.resize(num_nodes);
         boundary_descriptor bi(0, true);
         storage->boundary_info.at(0)             = bi;
-- 
2.43.0


From 31a02dcc0cf3ab3d49087cab9cfcb097ff740765 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:48 +0000
Subject: [PATCH 47/49] fix: load_single_element_csv did not return, or
 reported success, after a read error

---
 libdiskpp/include/diskpp/mesh/meshgen.hpp | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/libdiskpp/include/diskpp/mesh/meshgen.hpp b/libdiskpp/include/diskpp/mesh/meshgen.hpp
index 65402b0..1d7c25f 100644
--- a/libdiskpp/include/diskpp/mesh/meshgen.hpp
+++ b/libdiskpp/include/diskpp/mesh/meshgen.hpp
@@ -1162,9 +1162,8 @@ bool load_single_element_csv(generic_mesh<T,2>& msh, const std::string& filename
     std::string line;
     getline(ifs, line);
 
-    size_t ptnum = 0;
-    while( not ifs.eof() ) {
-        getline(ifs, line);
+    std::vector<point_type> pts;
+    while( getline(ifs, line) ) {
         if (line == "")
             break;
 
@@ -1178,11 +1177,21 @@ bool load_single_element_csv(generic_mesh<T,2>& msh, const std::string& filename
         auto x = std::stod(tokens[0]);
         auto y = std::stod(tokens[1]);
 
-        storage->points.push_back( point_type{x,y} );
-        auto p = point_identifier<2>(ptnum++);
-        storage->nodes.push_back( node_type(p) );
+        pts.push_back( point_type{x,y} );
+    }
+
+    if (ifs.bad() or pts.size() < 3) {
+        std::cout << "Error reading " << filename << std::endl;
+        return false;
     }
 
+    storage->points = pts;
+    storage->nodes.clear();
+    storage->edges.clear();
+    storage->surfaces.clear();
+    for (size_t i = 0; i < pts.size(); i++)
+        storage->nodes.push_back( node_type(point_identifier<2>(i)) );
+
     std::vector<typename node_type::id_type> surface_nodes;
     std::vector<typename edge_type::id_type> surface_edges;
     auto num_nodes = storage->nodes.size();
-- 
2.43.0


From e51fcdb90c6e8d59762c34de951b69502ee67bb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:48 +0000
Subject: [PATCH 48/49] fix: single element meshes had wrong or unsorted faces
 and no boundary information

---
 libdiskpp/include/diskpp/mesh/meshgen.hpp | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/libdiskpp/include/diskpp/mesh/meshgen.hpp b/libdiskpp/include/diskpp/mesh/meshgen.hpp
index 1d7c25f..d6e0e64 100644
--- a/libdiskpp/include/diskpp/mesh/meshgen.hpp
+++ b/libdiskpp/include/diskpp/mesh/meshgen.hpp
@@ -928,6 +928,8 @@ void make_single_element_mesh(simplicial_mesh<T,2>& msh, const point<T,2>& a, co
     storage->edges.push_back( {p0, p2} );
     storage->edges.push_back( {p1, p2} );
 
+    storage->boundary_info.assign( storage->edges.size(), boundary_descriptor(0, true) );
+
     storage->surfaces.push_back( {p0, p1, p2} );
     storage->subdomain_info.resize( 1 );
 }
@@ -957,6 +959,11 @@ void make_single_element_mesh(simplicial_mesh<T,3>& msh,
     auto p2 = point_identifier<3>(2);
     auto p3 = point_identifier<3>(3);
 
+    storage->nodes.push_back( { p0 } );
+    storage->nodes.push_back( { p1 } );
+    storage->nodes.push_back( { p2 } );
+    storage->nodes.push_back( { p3 } );
+
     // Base face
     storage->edges.push_back( {p0, p1} );
     storage->edges.push_back( {p0, p2} );
@@ -975,6 +982,10 @@ void make_single_element_mesh(simplicial_mesh<T,3>& msh,
     // Back face
     storage->surfaces.push_back( {p0, p2, p3} );
 
+    std::sort(storage->edges.begin(), storage->edges.end());
+    std::sort(storage->surfaces.begin(), storage->surfaces.end());
+    storage->boundary_info.assign( storage->surfaces.size(), boundary_descriptor(0, true) );
+
     storage->volumes.push_back( {p0, p1, p2, p3} );
 
     storage->subdomain_info.resize( 1 );
@@ -1009,9 +1020,10 @@ void make_single_element_mesh(cartesian_mesh<T,2>& msh, const point<T,2>& base,
     storage->nodes.push_back( { p3 } );
 
     storage->edges.push_back( {p0, p1} );
-    storage->edges.push_back( {p0, p3} );
-    storage->edges.push_back( {p1, p2} );
+    storage->edges.push_back( {p0, p2} );
+    storage->edges.push_back( {p1, p3} );
     storage->edges.push_back( {p2, p3} );
+    storage->boundary_info.assign( storage->edges.size(), boundary_descriptor(0, true) );
 
     storage->surfaces.push_back( {p0, p1, p2, p3} );
     storage->subdomain_info.resize( 1 );
@@ -1077,6 +1089,7 @@ void make_single_element_mesh(cartesian_mesh<T,3>& msh, const point<T,3>& base,
     storage->surfaces.push_back( {p0, p1, p5, p4} );
     storage->surfaces.push_back({ p2, p3, p7, p6 });
     std::sort(storage->surfaces.begin(), storage->surfaces.end());
+    storage->boundary_info.assign( storage->surfaces.size(), boundary_descriptor(0, true) );
 
     storage->volumes.push_back( {p0, p1, p2, p3, p4, p5, p6, p7} );
 
-- 
2.43.0


From d42f3aaf8e13aa33b272317d8e159e5105f5be20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:34 +0000
Subject: [PATCH 49/49] fix: a mesh hierarchy could not be rebuilt from one of
 its own meshes

---
 libdiskpp/include/diskpp/mesh/mesh_hierarchy.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/libdiskpp/include/diskpp/mesh/mesh_hierarchy.hpp b/libdiskpp/include/diskpp/mesh/mesh_hierarchy.hpp
index f545e19..01bd927 100644
--- a/libdiskpp/include/diskpp/mesh/mesh_hierarchy.hpp
+++ b/libdiskpp/include/diskpp/mesh/mesh_hierarchy.hpp
@@ -396,11 +396,13 @@ public:
     void
     build_hierarchy(const mesh_type& initial_mesh, size_t levels)
     {
+        const mesh_type coarsest = initial_mesh; /* could be in meshes */
+
         meshes.clear();
         coarse_to_fine.clear();
         coarse_to_fine_int.clear(); /* An earlier build may have failed */
 
-        meshes.push_back(initial_mesh);
+        meshes.push_back(coarsest);
 
         for (size_t i = 0; i < levels; i++)
         {
-- 
2.43.0

