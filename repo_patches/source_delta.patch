From 47b318fd609ac79c065e25f86786733345d53d20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:00 +0000
Subject: [PATCH 1/8] fix: clear the whole depth of a 3D grid (loop bound in Y
 used the X size)

---
 src/OpenMps/Grid.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/OpenMps/Grid.hpp b/src/OpenMps/Grid.hpp
index 1ea3925..462e2a5 100644
--- a/src/OpenMps/Grid.hpp
+++ b/src/OpenMps/Grid.hpp
@@ -166,7 +166,7 @@ namespace { namespace OpenMps
 			for (auto i = decltype(nx){0}; i < nx; i++)
 			{
 #ifdef DIM3
-				for (auto j = decltype(ny){0}; j < nx; j++)
+				for (auto j = decltype(ny){0}; j < ny; j++)
 				{
 #endif
 					for (auto k = decltype(nz){0}; k < nz; k++)
@@ -195,7 +195,7 @@ namespace { namespace OpenMps
 			for (auto i = decltype(nx){0}; i < nx; i++)
 			{
 #ifdef DIM3
-				for (auto j = decltype(ny){0}; j < nx; j++)
+				for (auto j = decltype(ny){0}; j < ny; j++)
 				{
 #endif
 					for (auto k = decltype(nz){0}; k < nz; k++)
@@ -229,7 +229,7 @@ namespace { namespace OpenMps
 			for (auto i = decltype(nx){0}; i < nx; i++)
 			{
 #ifdef DIM3
-				for (auto j = decltype(ny){0}; j < nx; j++)
+				for (auto j = decltype(ny){0}; j < ny; j++)
 				{
 #endif
 					for (auto k = decltype(nz){0}; k < nz; k++)
-- 
2.43.0


From ed0b728a8965aab339619af62884469ad62d6893 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:21 +0000
Subject: [PATCH 2/8] fix: resize the pressure system in place (assigning a
 matrix or vector of another size is not allowed in ViennaCL)

---
 src/OpenMps/Computer.hpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/OpenMps/Computer.hpp b/src/OpenMps/Computer.hpp
index 3fa81f8..ef3a90d 100644
--- a/src/OpenMps/Computer.hpp
+++ b/src/OpenMps/Computer.hpp
@@ -1162,12 +1162,12 @@ namespace { namespace OpenMps
 			if (n != ppe.b.size())
 			{
 				// サイズを変えて作り直し
-				ppe.A = typename Ppe::Matrix {n, n};
-				ppe.x = typename Ppe::LongVector(n);
-				ppe.b = typename Ppe::LongVector(n);
-				ppe.cg.r = typename Ppe::LongVector(n);
-				ppe.cg.p = typename Ppe::LongVector(n);
-				ppe.cg.Ap = typename Ppe::LongVector(n);
+				ppe.A.resize(n, n, false);
+				ppe.x.resize(n, false);
+				ppe.b.resize(n, false);
+				ppe.cg.r.resize(n, false);
+				ppe.cg.p.resize(n, false);
+				ppe.cg.Ap.resize(n, false);
 
 #ifdef USE_VIENNACL
 				ppe.tempA = typename Ppe::TempMatrix(n, n);
-- 
2.43.0


From 1b6e7fe8cfe5e59ec54d553636c70be90797a18e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:50 +0000
Subject: [PATCH 3/8] fix: time step of an empty computation (the maximum over
 no particles was dereferenced)

---
 src/OpenMps/Computer.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/OpenMps/Computer.hpp b/src/OpenMps/Computer.hpp
index ef3a90d..59d06b0 100644
--- a/src/OpenMps/Computer.hpp
+++ b/src/OpenMps/Computer.hpp
@@ -760,6 +760,12 @@ namespace { namespace OpenMps
 		{
 			namespace ublas = boost::numeric::ublas;
 
+			// 粒子が無ければ速度による制限はない
+			if (particles.empty())
+			{
+				return environment.MaxDt;
+			}
+
 			// 最大速度を取得
 			const auto maxUParticle = *std::max_element(particles.cbegin(), particles.cend(),
 				[](const Particle& base, const Particle& target)
-- 
2.43.0


From 0d511256fe504c9896ba5dd0d4a64f29232bcd69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:26 +0000
Subject: [PATCH 4/8] fix: inverse of a 3x3 matrix (the cofactors were not
 transposed)

---
 src/OpenMps/Computer.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/OpenMps/Computer.hpp b/src/OpenMps/Computer.hpp
index 59d06b0..3dd3f1d 100644
--- a/src/OpenMps/Computer.hpp
+++ b/src/OpenMps/Computer.hpp
@@ -412,9 +412,9 @@ namespace { namespace OpenMps
 							a00, a01,
 							a10, a11);
 
-						mat(0, 0) = +A00 / det; mat(0, 1) = -A01 / det; mat(0, 2) = +A02 / det;
-						mat(1, 0) = -A10 / det; mat(1, 1) = +A11 / det; mat(1, 2) = -A12 / det;
-						mat(2, 0) = +A20 / det; mat(2, 1) = -A21 / det; mat(2, 2) = +A22 / det;
+						mat(0, 0) = +A00 / det; mat(0, 1) = -A10 / det; mat(0, 2) = +A20 / det;
+						mat(1, 0) = -A01 / det; mat(1, 1) = +A11 / det; mat(1, 2) = -A21 / det;
+						mat(2, 0) = +A02 / det; mat(2, 1) = -A12 / det; mat(2, 2) = +A22 / det;
 
 						return mat;
 					}
-- 
2.43.0


From 7e3b7fb73277b41a92e55ed7f34f59204d678bfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:21:21 +0000
Subject: [PATCH 5/8] fix: reading of particle tables without a header or with
 too short lines (items outside the table were read)

---
 src/OpenMps/Main.cpp | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/OpenMps/Main.cpp b/src/OpenMps/Main.cpp
index 4769219..2184590 100644
--- a/src/OpenMps/Main.cpp
+++ b/src/OpenMps/Main.cpp
@@ -76,7 +76,11 @@ namespace
 
 		// 先頭の空行は飛ばす
 		auto itr = input.cbegin();
-		for (; itr->size() == 0; ++itr) {}
+		for (; (itr != input.cend()) && (itr->size() == 0); ++itr) {}
+		if (itr == input.cend())
+		{
+			throw std::runtime_error("No header in input csv");
+		}
 
 		// 行をカンマ区切りで分割する関数
 		const auto GetItems = [](std::string str)
@@ -97,6 +101,7 @@ namespace
 
 		// ヘッダー項目の列番号を取得（ない場合は0が入る）
 		constexpr std::size_t HEADER_NOT_FOUND = 0;
+		std::size_t columnCount = 0;
 		auto header = std::unordered_map<std::string, std::size_t>(
 		{
 			{ "Type", HEADER_NOT_FOUND },
@@ -117,6 +122,7 @@ namespace
 			// 先頭行を読み込み
 			auto& line = *itr; ++itr;
 			const auto headerItems = GetItems(line);
+			columnCount = headerItems.size();
 			for (auto i = decltype(headerItems.size())(0); i < headerItems.size(); i++)
 			{
 				const auto name = headerItems[i];
@@ -150,6 +156,12 @@ namespace
 			const auto data = GetItems(line);
 			if (data.size() > 0) // 空行は飛ばす
 			{
+				// 列が足りなかったらエラー
+				if (data.size() < columnCount)
+				{
+					throw std::runtime_error("Too few items in a line of input csv");
+				}
+
 				auto particle = OpenMps::Particle(static_cast<OpenMps::Particle::Type>(stov<std::underlying_type_t<OpenMps::Particle::Type>>(data[header["Type"]])));
 
 				// 位置ベクトル
-- 
2.43.0


From 87efb28c3345a646b0d1c6e0edf18fd19f90ede3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:29:35 +0000
Subject: [PATCH 6/8] fix: an overflow of the search grid during a run is
 reported like the other failures (it aborted the program)

---
 src/OpenMps/Main.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/OpenMps/Main.cpp b/src/OpenMps/Main.cpp
index 2184590..cdfb187 100644
--- a/src/OpenMps/Main.cpp
+++ b/src/OpenMps/Main.cpp
@@ -396,7 +396,7 @@ int main(const int argc, const char* const argv[])
 			printTime(tComputer, iteration, outputCount + outputIterationOffset, count);
 		}
 		// 計算で例外があったら
-		catch(decltype(computer)::Exception ex)
+		catch(const std::exception& ex)
 		{
 			// エラーメッセージを出して止める
 			std::cout << "!!!!ERROR!!!!" << std::endl
-- 
2.43.0


From 1717189f1ef229863a2845b4ebc641b1e4ec1951 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:39:47 +0000
Subject: [PATCH 7/8] fix: searching the grid after a refused particle (the
 refused one was counted, so the search left the cell's storage)

---
 src/OpenMps/Grid.hpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/OpenMps/Grid.hpp b/src/OpenMps/Grid.hpp
index 462e2a5..2827175 100644
--- a/src/OpenMps/Grid.hpp
+++ b/src/OpenMps/Grid.hpp
@@ -1,6 +1,7 @@
 ﻿#ifndef GRID_INCLUDED
 #define GRID_INCLUDED
 
+#include <algorithm>
 #include <iterator>
 #include <array>
 #include <boost/multi_array.hpp>
@@ -257,17 +258,17 @@ namespace { namespace OpenMps
 #ifdef DIM3
 		auto ParticleCount(const Index i, const Index j, const Index k) const
 		{
-			return data[i][j][k][0]; // 先頭は粒子数を格納してある
+			return std::min(data[i][j][k][0], MaxParticles()); // 先頭は粒子数を格納してある（登録に失敗した分は数えない）
 		}
 #else
 		auto ParticleCount(const Index i, const Index k) const
 		{
-			return data[i][k][0]; // 先頭は粒子数を格納してある
+			return std::min(data[i][k][0], MaxParticles()); // 先頭は粒子数を格納してある（登録に失敗した分は数えない）
 		}
 #endif
 
 		// 1ブロック内の最大粒子数
-		auto MaxParticles() const
+		ParticleID MaxParticles() const
 		{
 			return static_cast<ParticleID>(data.shape()[AXIS_Z + 1]) - 1; // 先頭の粒子数の格納分を除く
 		}
-- 
2.43.0


From c3ba9dcef09c56d8b3920e2347e31787e6d51b4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:18:45 +0000
Subject: [PATCH 8/8] fix: a step of an empty computation (the pressure
 equation of no particles was handed to the solver, which refuses it)

---
 src/OpenMps/Computer.hpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/OpenMps/Computer.hpp b/src/OpenMps/Computer.hpp
index 3dd3f1d..a9894ca 100644
--- a/src/OpenMps/Computer.hpp
+++ b/src/OpenMps/Computer.hpp
@@ -1072,11 +1072,15 @@ namespace { namespace OpenMps
 				particle.P() = (rho <= rho0) ? 0 : c*c*(rho - rho0);
 			}
 #else
-			// 圧力方程式を設定
-			SetPressurePoissonEquation();
+			// 粒子が無ければ解くべき圧力方程式もない
+			if (n > 0)
+			{
+				// 圧力方程式を設定
+				SetPressurePoissonEquation();
 
-			// 圧力方程式を解く
-			SolvePressurePoissonEquation();
+				// 圧力方程式を解く
+				SolvePressurePoissonEquation();
+			}
 
 			// 得た圧力を代入する
 			OMP_PARALLEL_FOR
-- 
2.43.0

