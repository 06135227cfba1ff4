From 6684187af75d4f9ed9edd0ea98e1ce1c3a3f6d5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:39 +0000
Subject: [PATCH 01/23] fix: do not share zstd contexts between threads

A ZstdCompressor/ZstdDecompressor must not be used by two threads at once;
the column type is one object for the whole process, so two concurrent
reads or writes crashed the interpreter.
---
 .../persistence/sqlalchemy/alchemy_decorator.py            | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/pysatl_criterion/persistence/sqlalchemy/alchemy_decorator.py b/src/pysatl_criterion/persistence/sqlalchemy/alchemy_decorator.py
index 70676ab..df2c714 100644
--- a/src/pysatl_criterion/persistence/sqlalchemy/alchemy_decorator.py
+++ b/src/pysatl_criterion/persistence/sqlalchemy/alchemy_decorator.py
@@ -24,8 +24,6 @@ class CompressedFloatArray(TypeDecorator):
         """
         super().__init__()
         self.use_float32 = use_float32
-        self.compressor = zstd.ZstdCompressor()
-        self.decompressor = zstd.ZstdDecompressor()
 
     def process_bind_param(self, value: list[float] | None, dialect):
         """
@@ -42,7 +40,8 @@ class CompressedFloatArray(TypeDecorator):
         dtype_code = self.DTYPE_FLOAT32 if self.use_float32 else self.DTYPE_FLOAT64
 
         arr = np.asarray(value, dtype=dtype)
-        compressed = self.compressor.compress(arr.tobytes())
+        # zstd contexts are not thread-safe and one column type serves every thread
+        compressed = zstd.ZstdCompressor().compress(arr.tobytes())
 
         # header: version(1B), dtype_code(1B), length(4B)
         header = struct.pack("<BBI", self.VERSION, dtype_code, len(arr))
@@ -71,6 +70,6 @@ class CompressedFloatArray(TypeDecorator):
 
         dtype = np.float32 if dtype_code == self.DTYPE_FLOAT32 else np.float64
 
-        decompressed_bytes = self.decompressor.decompress(compressed)
+        decompressed_bytes = zstd.ZstdDecompressor().decompress(compressed)
         arr = np.frombuffer(decompressed_bytes, dtype=dtype, count=length)
         return arr.tolist()
-- 
2.43.0


From 19af67139a7cb35cf585a23802fea6dee6f9b009 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:39 +0000
Subject: [PATCH 02/23] fix: detect damaged distribution blobs instead of
 decoding them

A wrong element count or value type in the header, or a flipped byte in an
uncompressed block, was decoded into a different list without any error.
---
 .../persistence/sqlalchemy/alchemy_decorator.py      | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/pysatl_criterion/persistence/sqlalchemy/alchemy_decorator.py b/src/pysatl_criterion/persistence/sqlalchemy/alchemy_decorator.py
index df2c714..5f6184b 100644
--- a/src/pysatl_criterion/persistence/sqlalchemy/alchemy_decorator.py
+++ b/src/pysatl_criterion/persistence/sqlalchemy/alchemy_decorator.py
@@ -41,7 +41,7 @@ class CompressedFloatArray(TypeDecorator):
 
         arr = np.asarray(value, dtype=dtype)
         # zstd contexts are not thread-safe and one column type serves every thread
-        compressed = zstd.ZstdCompressor().compress(arr.tobytes())
+        compressed = zstd.ZstdCompressor(write_checksum=True).compress(arr.tobytes())
 
         # header: version(1B), dtype_code(1B), length(4B)
         header = struct.pack("<BBI", self.VERSION, dtype_code, len(arr))
@@ -68,8 +68,14 @@ class CompressedFloatArray(TypeDecorator):
         if version != self.VERSION:
             raise ValueError(f"Unsupported version: {version}")
 
-        dtype = np.float32 if dtype_code == self.DTYPE_FLOAT32 else np.float64
+        if dtype_code not in (self.DTYPE_FLOAT32, self.DTYPE_FLOAT64):
+            raise ValueError(f"Unsupported value type: {dtype_code}")
+
+        dtype = np.dtype(np.float32 if dtype_code == self.DTYPE_FLOAT32 else np.float64)
+
+        decompressed_bytes = zstd.ZstdDecompressor().decompress(compressed, allow_extra_data=False)
+        if len(decompressed_bytes) != length * dtype.itemsize:
+            raise ValueError("Stored length does not match the stored data")
 
-        decompressed_bytes = zstd.ZstdDecompressor().decompress(compressed)
         arr = np.frombuffer(decompressed_bytes, dtype=dtype, count=length)
         return arr.tolist()
-- 
2.43.0


From 840c9e87d715a25c56688a4eb5c544f6e75a2b3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:01 +0000
Subject: [PATCH 03/23] fix: honour sample_size_error in the critical-value
 lookup

get_data_for_cv ignored the tolerance of the query, so a loader called with a
tolerance never found what it had cached and fetched it again every time.
---
 src/pysatl_criterion/persistence/sqlalchemy/datastorage.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/pysatl_criterion/persistence/sqlalchemy/datastorage.py b/src/pysatl_criterion/persistence/sqlalchemy/datastorage.py
index 3fdd310..8a8bab1 100644
--- a/src/pysatl_criterion/persistence/sqlalchemy/datastorage.py
+++ b/src/pysatl_criterion/persistence/sqlalchemy/datastorage.py
@@ -161,14 +161,17 @@ class AlchemyLimitDistributionStorage(ILimitDistributionStorage):
         :param query: CriticalValueQuery instance containing the search criteria.
 
         :return: LimitDistributionModel instance with the highest monte_carlo_count \
-        for the given criterion_code and sample_size,
+        for the given criterion_code and sample size range,
         """
         with self.Session() as session:
             stmt = (
                 select(LimitDistributionORM)
                 .where(
                     LimitDistributionORM.criterion_code == query.criterion_code,
-                    LimitDistributionORM.sample_size == query.sample_size,
+                    LimitDistributionORM.sample_size.between(
+                        query.sample_size - query.sample_size_error,
+                        query.sample_size + query.sample_size_error,
+                    ),
                 )
                 .order_by(desc(LimitDistributionORM.monte_carlo_count))
                 .limit(1)
-- 
2.43.0


From 63decca6fc69c0b434d6edc4a62febe9c284625d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:01 +0000
Subject: [PATCH 04/23] fix: look up and delete keys shared by several
 experiments

The primary key contains the experiment id but the query does not, so lookups
and deletes raised MultipleResultsFound once two experiments had stored a
distribution under the same key.  A lookup now takes the latest experiment and
a delete removes every record of the key in one statement.
---
 .../persistence/sqlalchemy/datastorage.py             | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/src/pysatl_criterion/persistence/sqlalchemy/datastorage.py b/src/pysatl_criterion/persistence/sqlalchemy/datastorage.py
index 8a8bab1..ca68bd1 100644
--- a/src/pysatl_criterion/persistence/sqlalchemy/datastorage.py
+++ b/src/pysatl_criterion/persistence/sqlalchemy/datastorage.py
@@ -2,7 +2,7 @@ import json
 import logging
 from typing import Optional
 
-from sqlalchemy import create_engine, desc, select
+from sqlalchemy import create_engine, delete, desc, select
 from sqlalchemy.exc import OperationalError
 from sqlalchemy.orm import sessionmaker
 
@@ -86,6 +86,7 @@ class AlchemyLimitDistributionStorage(ILimitDistributionStorage):
                 LimitDistributionORM.sample_size == query.sample_size,
                 LimitDistributionORM.monte_carlo_count == query.monte_carlo_count,
             )
+            stmt = stmt.order_by(desc(LimitDistributionORM.experiment_id)).limit(1)
             result = session.execute(stmt).scalar_one_or_none()
             return result.to_model() if result else None
 
@@ -142,16 +143,14 @@ class AlchemyLimitDistributionStorage(ILimitDistributionStorage):
         Delete limit distribution data based on the provided query parameters.
         """
         with self.Session() as session:
-            stmt = select(LimitDistributionORM).where(
+            stmt = delete(LimitDistributionORM).where(
                 LimitDistributionORM.criterion_code == query.criterion_code,
                 LimitDistributionORM.criterion_parameters == json.dumps(query.criterion_parameters),
                 LimitDistributionORM.sample_size == query.sample_size,
                 LimitDistributionORM.monte_carlo_count == query.monte_carlo_count,
             )
-            obj = session.execute(stmt).scalar_one_or_none()
-            if obj:
-                session.delete(obj)
-                session.commit()
+            session.execute(stmt)
+            session.commit()
 
     def get_data_for_cv(self, query: CriticalValueQuery) -> LimitDistributionModel | None:
         """
-- 
2.43.0


From 3d0f27914239004969f9a8159b758be01c85c498 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:34 +0000
Subject: [PATCH 05/23] fix: store records with one upsert statement

Two clients storing the same new key both found it missing, both inserted, and
one failed with an integrity error; an update racing with a delete failed too.
---
 .../persistence/sqlalchemy/datastorage.py     | 34 ++++++++++++++++---
 1 file changed, 30 insertions(+), 4 deletions(-)

diff --git a/src/pysatl_criterion/persistence/sqlalchemy/datastorage.py b/src/pysatl_criterion/persistence/sqlalchemy/datastorage.py
index ca68bd1..5e98528 100644
--- a/src/pysatl_criterion/persistence/sqlalchemy/datastorage.py
+++ b/src/pysatl_criterion/persistence/sqlalchemy/datastorage.py
@@ -1,10 +1,11 @@
 import json
 import logging
-from typing import Optional
+from typing import Any, Optional
 
 from sqlalchemy import create_engine, delete, desc, select
+from sqlalchemy.dialects import postgresql, sqlite
 from sqlalchemy.exc import OperationalError
-from sqlalchemy.orm import sessionmaker
+from sqlalchemy.orm import Session, sessionmaker
 
 from pysatl_criterion.persistence.models.limit_distribution import (
     CriticalValueQuery,
@@ -20,6 +21,8 @@ from pysatl_criterion.persistence.sqlalchemy.models.limit_distribution_orm impor
 
 logger = logging.getLogger(__name__)
 
+_DIALECT_INSERT: dict[str, Any] = {"postgresql": postgresql.insert, "sqlite": sqlite.insert}
+
 
 class AlchemyLimitDistributionStorage(ILimitDistributionStorage):
     """
@@ -68,9 +71,32 @@ class AlchemyLimitDistributionStorage(ILimitDistributionStorage):
 
         orm_obj = LimitDistributionORM.from_model(data)
         with self.Session() as session:
-            session.merge(orm_obj)
+            self._upsert(session, orm_obj)
             session.commit()
 
+    @staticmethod
+    def _upsert(session: Session, orm_obj: LimitDistributionORM) -> None:
+        """
+        Insert or update one record.
+
+        Uses a single statement where the database has one: merge() reads before it writes, so two
+        clients storing the same new key would both insert and one of them would fail.
+        """
+        insert = _DIALECT_INSERT.get(session.get_bind().dialect.name)
+        if insert is None:
+            session.merge(orm_obj)
+            return
+
+        table = LimitDistributionORM.__table__
+        values = {column.key: getattr(orm_obj, column.key) for column in table.columns}
+        stmt = insert(LimitDistributionORM).values(values)
+        session.execute(
+            stmt.on_conflict_do_update(
+                index_elements=list(table.primary_key.columns),
+                set_={c.key: stmt.excluded[c.key] for c in table.columns if not c.primary_key},
+            )
+        )
+
     def get_data(self, query: LimitDistributionQuery) -> LimitDistributionModel | None:
         """
         Retrieve limit distribution data based on the provided query parameters.
@@ -135,7 +161,7 @@ class AlchemyLimitDistributionStorage(ILimitDistributionStorage):
         with self.Session() as session:
             for model in models:
                 orm_obj = LimitDistributionORM.from_model(model)
-                session.merge(orm_obj)
+                self._upsert(session, orm_obj)
             session.commit()
 
     def delete_data(self, query: LimitDistributionQuery) -> None:
-- 
2.43.0


From b184a8d0368ae84138eb119a12f0e0e28fa82043 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:34 +0000
Subject: [PATCH 06/23] fix: let several clients initialise a fresh database at
 once

create_all() checks for the table first and creates it afterwards, so of two
clients opening the same fresh database one failed with "table already exists".
---
 src/pysatl_criterion/persistence/sqlalchemy/datastorage.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/pysatl_criterion/persistence/sqlalchemy/datastorage.py b/src/pysatl_criterion/persistence/sqlalchemy/datastorage.py
index 5e98528..c61711f 100644
--- a/src/pysatl_criterion/persistence/sqlalchemy/datastorage.py
+++ b/src/pysatl_criterion/persistence/sqlalchemy/datastorage.py
@@ -6,6 +6,7 @@ from sqlalchemy import create_engine, delete, desc, select
 from sqlalchemy.dialects import postgresql, sqlite
 from sqlalchemy.exc import OperationalError
 from sqlalchemy.orm import Session, sessionmaker
+from sqlalchemy.schema import CreateTable
 
 from pysatl_criterion.persistence.models.limit_distribution import (
     CriticalValueQuery,
@@ -37,9 +38,9 @@ class AlchemyLimitDistributionStorage(ILimitDistributionStorage):
     def init(self) -> None:
         """Create all tables."""
         try:
-            with self.engine.connect():
-                pass
-            Base.metadata.create_all(self.engine)
+            with self.engine.begin() as connection:
+                for table in Base.metadata.sorted_tables:
+                    connection.execute(CreateTable(table, if_not_exists=True))
         except (OperationalError, Exception) as e:
             raise ConnectionError(f"Database unavailable: {self.connection_string}") from e
 
-- 
2.43.0


From 730401f2abb033133aeaf70fe90631f9aa95f9dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:34 +0000
Subject: [PATCH 07/23] fix: load a single criterion into the local storage

load() looked the criterion up in the remote storage, returned True at once if
it was there and so never stored anything locally.
---
 .../critical_values/loader/remote_loader.py                 | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/pysatl_criterion/hypothesis_testing/critical_values/loader/remote_loader.py b/src/pysatl_criterion/hypothesis_testing/critical_values/loader/remote_loader.py
index ad8e0d1..b1df427 100644
--- a/src/pysatl_criterion/hypothesis_testing/critical_values/loader/remote_loader.py
+++ b/src/pysatl_criterion/hypothesis_testing/critical_values/loader/remote_loader.py
@@ -34,13 +34,13 @@ class CriticalValueLoader:
         logging.info(f"Load criterion {criterion_code} with size {sample_size} from remote")
         query = CriticalValueQuery(criterion_code, sample_size, sample_size_error)
 
+        if self.__local_storage.get_data_for_cv(query):
+            return True
+
         if self.__remote_storage is None:
             logging.error("Cannot load data: remote storage is not initialized.")
             return False
 
-        if self.__remote_storage.get_data_for_cv(query):
-            return True
-
         remote_data = self.__remote_storage.get_data_for_cv(query)
         if remote_data is not None:
             self.__local_storage.insert_data(remote_data)
-- 
2.43.0


From 5a602aea7db04e2fe8fc9b15bd03fdde0bc92a5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:22 +0000
Subject: [PATCH 08/23] fix: do not report distributions as cached when storing
 them failed

load_bulk logs and swallows a failing local insert but still counted every
fetched distribution as newly cached.
---
 .../critical_values/loader/remote_loader.py                 | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/pysatl_criterion/hypothesis_testing/critical_values/loader/remote_loader.py b/src/pysatl_criterion/hypothesis_testing/critical_values/loader/remote_loader.py
index b1df427..b1cc9b4 100644
--- a/src/pysatl_criterion/hypothesis_testing/critical_values/loader/remote_loader.py
+++ b/src/pysatl_criterion/hypothesis_testing/critical_values/loader/remote_loader.py
@@ -93,8 +93,10 @@ class CriticalValueLoader:
         )
 
         # 3. Bulk insert into local
+        newly_cached_count = 0
         try:
             self.__local_storage.insert_bulk_data(remote_models)
+            newly_cached_count = len(remote_models)
             logger.info(f"Successfully cached {len(remote_models)} new distributions.")
         except Exception as e:
             logger.error(f"Failed to save bulk data to local storage: {e}")
@@ -105,13 +107,13 @@ class CriticalValueLoader:
         not_found = [c for c in missing_codes if c not in found_codes]
 
         logging.info(
-            f"Bulk load finished: {len(remote_models)} new, "
+            f"Bulk load finished: {newly_cached_count} new, "
             f"{len(already_cached)} skipped, {len(not_found)} failed."
         )
 
         return BulkLoadResult(
             requested_count=len(criterion_codes),
             already_cached_count=len(already_cached),
-            newly_cached_count=len(remote_models),
+            newly_cached_count=newly_cached_count,
             not_found_codes=not_found,
         )
-- 
2.43.0


From 0df902a1ba6dcdf459e2d9518f8d29ae0c8bbc31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:22 +0000
Subject: [PATCH 09/23] fix: report locally cached criteria when there is no
 remote storage

Without a remote load_bulk reported every criterion as not found, including
those that are in the local cache.
---
 .../critical_values/loader/remote_loader.py               | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/pysatl_criterion/hypothesis_testing/critical_values/loader/remote_loader.py b/src/pysatl_criterion/hypothesis_testing/critical_values/loader/remote_loader.py
index b1cc9b4..b9eb484 100644
--- a/src/pysatl_criterion/hypothesis_testing/critical_values/loader/remote_loader.py
+++ b/src/pysatl_criterion/hypothesis_testing/critical_values/loader/remote_loader.py
@@ -67,10 +67,6 @@ class CriticalValueLoader:
         if not criterion_codes:
             return BulkLoadResult(0, 0, 0, [])
 
-        if self.__remote_storage is None:
-            logging.error("Remote storage not initialized.")
-            return BulkLoadResult(len(criterion_codes), 0, 0, criterion_codes)
-
         # 1. Identify what's already in the local cache
         already_cached = []
         missing_codes = []
@@ -86,6 +82,10 @@ class CriticalValueLoader:
             logging.info("All requested criteria are already in the local cache.")
             return BulkLoadResult(len(criterion_codes), len(already_cached), 0)
 
+        if self.__remote_storage is None:
+            logging.error("Remote storage not initialized.")
+            return BulkLoadResult(len(criterion_codes), len(already_cached), 0, missing_codes)
+
         # 2. Fetch only missing data from remote
         logger.info(f"Fetching {len(missing_codes)} missing criteria from remote...")
         remote_models = self.__remote_storage.get_bulk_data(
-- 
2.43.0


From 1f6113eb7db84a4670f1b5022bdeed5750065ffc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:22 +0000
Subject: [PATCH 10/23] fix: count repeated values in critical values

The quantile was taken over the distinct values of the limit distribution, so
for a discrete statistic the test rejected far more, or far less, often than
the significance level.
---
 .../calculator/critical_value_calculator.py   | 27 +++++++++++++------
 1 file changed, 19 insertions(+), 8 deletions(-)

diff --git a/src/pysatl_criterion/hypothesis_testing/critical_values/calculator/critical_value_calculator.py b/src/pysatl_criterion/hypothesis_testing/critical_values/calculator/critical_value_calculator.py
index bc7ee5f..a8a88b0 100644
--- a/src/pysatl_criterion/hypothesis_testing/critical_values/calculator/critical_value_calculator.py
+++ b/src/pysatl_criterion/hypothesis_testing/critical_values/calculator/critical_value_calculator.py
@@ -1,5 +1,4 @@
 import numpy as np
-import scipy.stats as scipy_stats
 from typing_extensions import override
 
 from pysatl_criterion.hypothesis_testing.critical_values.calculator.model import (
@@ -7,6 +6,21 @@ from pysatl_criterion.hypothesis_testing.critical_values.calculator.model import
 )
 
 
+def _quantile(limit_distribution: list[float], q: float) -> float:
+    """
+    Calculate a quantile of a limit distribution, counting repeated values.
+
+    :param limit_distribution: simulated or theoretical limit distribution values.
+    :param q: quantile level.
+    :return: quantile value.
+    :raises ValueError: if the limit distribution contains nan.
+    """
+    values = np.asarray(limit_distribution, dtype=float)
+    if np.isnan(values).any():
+        raise ValueError("limit_distribution must not contain nan")
+    return float(np.quantile(values, q=q))
+
+
 class LeftCriticalValueCalculator(CriticalValueCalculator[float]):
     """
     Critical value calculator for left-tailed tests.
@@ -25,8 +39,7 @@ class LeftCriticalValueCalculator(CriticalValueCalculator[float]):
         :param significance_level: test significance level.
         :return: critical value at the lower-tail significance quantile.
         """
-        ecdf = scipy_stats.ecdf(limit_distribution)
-        return float(np.quantile(ecdf.cdf.quantiles, q=significance_level))
+        return _quantile(limit_distribution, significance_level)
 
 
 class RightCriticalValueCalculator(CriticalValueCalculator[float]):
@@ -47,8 +60,7 @@ class RightCriticalValueCalculator(CriticalValueCalculator[float]):
         :param significance_level: test significance level.
         :return: critical value at the upper-tail significance quantile.
         """
-        ecdf = scipy_stats.ecdf(limit_distribution)
-        return float(np.quantile(ecdf.cdf.quantiles, q=1 - significance_level))
+        return _quantile(limit_distribution, 1 - significance_level)
 
 
 class TwoSidedCriticalValueCalculator(CriticalValueCalculator[tuple[float, float]]):
@@ -69,9 +81,8 @@ class TwoSidedCriticalValueCalculator(CriticalValueCalculator[tuple[float, float
         :param significance_level: test significance level split between both tails.
         :return: tuple of lower and upper critical values.
         """
-        ecdf = scipy_stats.ecdf(limit_distribution)
         sl = significance_level / 2
-        left = float(np.quantile(ecdf.cdf.quantiles, q=sl))
-        right = float(np.quantile(ecdf.cdf.quantiles, q=1 - sl))
+        left = _quantile(limit_distribution, sl)
+        right = _quantile(limit_distribution, 1 - sl)
 
         return left, right
-- 
2.43.0


From 26558f995e8c5a0750861388c3356b665511b899 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:59 +0000
Subject: [PATCH 11/23] fix: roll back when a commit fails

A session that is closed after a failed commit (busy database, disk error)
without a rollback returns its connection to the pool with the transaction
still open: the store then saw the record whose insert had failed, and every
other client was locked out of the database.
---
 .../persistence/sqlalchemy/datastorage.py                | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/src/pysatl_criterion/persistence/sqlalchemy/datastorage.py b/src/pysatl_criterion/persistence/sqlalchemy/datastorage.py
index c61711f..f035658 100644
--- a/src/pysatl_criterion/persistence/sqlalchemy/datastorage.py
+++ b/src/pysatl_criterion/persistence/sqlalchemy/datastorage.py
@@ -71,9 +71,8 @@ class AlchemyLimitDistributionStorage(ILimitDistributionStorage):
         """
 
         orm_obj = LimitDistributionORM.from_model(data)
-        with self.Session() as session:
+        with self.Session.begin() as session:
             self._upsert(session, orm_obj)
-            session.commit()
 
     @staticmethod
     def _upsert(session: Session, orm_obj: LimitDistributionORM) -> None:
@@ -159,17 +158,16 @@ class AlchemyLimitDistributionStorage(ILimitDistributionStorage):
         if not models:
             return
 
-        with self.Session() as session:
+        with self.Session.begin() as session:
             for model in models:
                 orm_obj = LimitDistributionORM.from_model(model)
                 self._upsert(session, orm_obj)
-            session.commit()
 
     def delete_data(self, query: LimitDistributionQuery) -> None:
         """
         Delete limit distribution data based on the provided query parameters.
         """
-        with self.Session() as session:
+        with self.Session.begin() as session:
             stmt = delete(LimitDistributionORM).where(
                 LimitDistributionORM.criterion_code == query.criterion_code,
                 LimitDistributionORM.criterion_parameters == json.dumps(query.criterion_parameters),
@@ -177,7 +175,6 @@ class AlchemyLimitDistributionStorage(ILimitDistributionStorage):
                 LimitDistributionORM.monte_carlo_count == query.monte_carlo_count,
             )
             session.execute(stmt)
-            session.commit()
 
     def get_data_for_cv(self, query: CriticalValueQuery) -> LimitDistributionModel | None:
         """
-- 
2.43.0


From c9f27a2bbb49b3d6e829e56375ee55c3c2ece434 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:30 +0000
Subject: [PATCH 12/23] fix: discard connections whose schema creation failed

---
 src/pysatl_criterion/persistence/sqlalchemy/datastorage.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/pysatl_criterion/persistence/sqlalchemy/datastorage.py b/src/pysatl_criterion/persistence/sqlalchemy/datastorage.py
index f035658..d403ee6 100644
--- a/src/pysatl_criterion/persistence/sqlalchemy/datastorage.py
+++ b/src/pysatl_criterion/persistence/sqlalchemy/datastorage.py
@@ -42,6 +42,9 @@ class AlchemyLimitDistributionStorage(ILimitDistributionStorage):
                 for table in Base.metadata.sorted_tables:
                     connection.execute(CreateTable(table, if_not_exists=True))
         except (OperationalError, Exception) as e:
+            # after a failed schema creation SQLite may trust outdated cached pages of the
+            # connection once another client has created the schema: do not reuse it
+            self.engine.dispose()
             raise ConnectionError(f"Database unavailable: {self.connection_string}") from e
 
     @staticmethod
-- 
2.43.0


From a2a95358f22932a2ab26b1545edb28da0aa4b548 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:55 +0000
Subject: [PATCH 13/23] fix: generate samples with the hypothesis parameters of
 the statistic

---
 src/pysatl_criterion/generator/generators.py | 22 +++++++++++++-------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/src/pysatl_criterion/generator/generators.py b/src/pysatl_criterion/generator/generators.py
index a8d6e07..063eeba 100644
--- a/src/pysatl_criterion/generator/generators.py
+++ b/src/pysatl_criterion/generator/generators.py
@@ -73,6 +73,8 @@ NormalGenerator
     Normal distribution generator.
 """
 
+import math
+
 from typing_extensions import override
 
 from pysatl_criterion import DistributionType
@@ -109,12 +111,14 @@ class BetaRVSGenerator(AbstractRVSGenerator):
         First shape parameter.
     b : float
         Second shape parameter.
+    alpha, beta : float, optional
+        Names of ``a`` and ``b`` in the hypotheses of beta statistics.
     """
 
-    def __init__(self, a=1, b=1, **kwargs):
+    def __init__(self, a=1, b=1, *, alpha=None, beta=None, **kwargs):
         super().__init__(**kwargs)
-        self.a = a
-        self.b = b
+        self.a = a if alpha is None else alpha
+        self.b = b if beta is None else beta
 
     @override
     def parameters(self) -> dict[str, float]:
@@ -331,12 +335,14 @@ class LognormGenerator(AbstractRVSGenerator):
         Shape parameter.
     mu : float, default=0
         Mean parameter.
+    scale : float, optional
+        ``exp(mu)``, the parameter in the hypotheses of log-normal statistics.
     """
 
-    def __init__(self, s=1, mu=0, **kwargs):
+    def __init__(self, s=1, mu=0, *, scale=None, **kwargs):
         super().__init__(**kwargs)
         self.s = s
-        self.mu = mu
+        self.mu = mu if scale is None else math.log(scale)
 
     @override
     def parameters(self) -> dict[str, float]:
@@ -369,11 +375,13 @@ class GammaGenerator(AbstractRVSGenerator):
         Shape parameter.
     beta : float, default=0
         Scale parameter.
+    alpha : float, optional
+        Name of ``alfa`` in the hypotheses of gamma statistics.
     """
 
-    def __init__(self, alfa=1, beta=1, **kwargs):
+    def __init__(self, alfa=1, beta=1, *, alpha=None, **kwargs):
         super().__init__(**kwargs)
-        self.alfa = alfa
+        self.alfa = alfa if alpha is None else alpha
         self.beta = beta
 
     @override
-- 
2.43.0


From edb7948b0fff584e36310e379af084e1b879ce1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:02 +0000
Subject: [PATCH 14/23] fix: truncate the normal distribution at the given
 bounds

---
 src/pysatl_criterion/core/distributions/truncnormal.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/pysatl_criterion/core/distributions/truncnormal.py b/src/pysatl_criterion/core/distributions/truncnormal.py
index fc67c7c..7d4c1cf 100644
--- a/src/pysatl_criterion/core/distributions/truncnormal.py
+++ b/src/pysatl_criterion/core/distributions/truncnormal.py
@@ -47,4 +47,8 @@ def generate_truncnorm(size, mean=0, var=1, a=-10, b=10):
     >>> generate_truncnorm(5, mean=0, var=1, a=-2, b=2)
     array([...])
     """
-    return truncnorm.rvs(a=a, b=b, size=size, loc=mean, scale=np.sqrt(var))
+    scale = np.sqrt(var)
+    # scipy expects the bounds of the standard normal distribution
+    return truncnorm.rvs(
+        a=(a - mean) / scale, b=(b - mean) / scale, size=size, loc=mean, scale=scale
+    )
-- 
2.43.0


From 2ad4d0b989fe7abbdc687aa820a006fbc82b92f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:08 +0000
Subject: [PATCH 15/23] fix: find stored distributions whatever their Monte
 Carlo count

---
 .../hypothesis_testing/limit_distribution/base.py      |  2 +-
 .../persistence/models/limit_distribution.py           |  4 +++-
 .../persistence/sqlalchemy/datastorage.py              | 10 ++++++++--
 3 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/pysatl_criterion/hypothesis_testing/limit_distribution/base.py b/src/pysatl_criterion/hypothesis_testing/limit_distribution/base.py
index 9cf06de..405aaf7 100644
--- a/src/pysatl_criterion/hypothesis_testing/limit_distribution/base.py
+++ b/src/pysatl_criterion/hypothesis_testing/limit_distribution/base.py
@@ -111,7 +111,7 @@ class StorageLimitDistributionResolver(AbstractLimitDistributionResolver):
                 criterion_code=statistic.code(),
                 criterion_parameters=statistic.hypothesis().parameters(),
                 sample_size=sample_size,
-                monte_carlo_count=1,
+                monte_carlo_count=None,
             )
         )
 
diff --git a/src/pysatl_criterion/persistence/models/limit_distribution.py b/src/pysatl_criterion/persistence/models/limit_distribution.py
index 9fc2064..cc0042d 100644
--- a/src/pysatl_criterion/persistence/models/limit_distribution.py
+++ b/src/pysatl_criterion/persistence/models/limit_distribution.py
@@ -34,12 +34,14 @@ class LimitDistributionModel(DataModel):
 class LimitDistributionQuery(DataQuery):
     """
     Query object for retrieving specific limit distribution data.
+
+    Without a monte_carlo_count, the distribution with the largest one is retrieved.
     """
 
     criterion_code: str
     criterion_parameters: list[float]
     sample_size: int
-    monte_carlo_count: int
+    monte_carlo_count: int | None
 
 
 @dataclass
diff --git a/src/pysatl_criterion/persistence/sqlalchemy/datastorage.py b/src/pysatl_criterion/persistence/sqlalchemy/datastorage.py
index d403ee6..e12b647 100644
--- a/src/pysatl_criterion/persistence/sqlalchemy/datastorage.py
+++ b/src/pysatl_criterion/persistence/sqlalchemy/datastorage.py
@@ -113,9 +113,15 @@ class AlchemyLimitDistributionStorage(ILimitDistributionStorage):
                 LimitDistributionORM.criterion_code == query.criterion_code,
                 LimitDistributionORM.criterion_parameters == json.dumps(query.criterion_parameters),
                 LimitDistributionORM.sample_size == query.sample_size,
-                LimitDistributionORM.monte_carlo_count == query.monte_carlo_count,
             )
-            stmt = stmt.order_by(desc(LimitDistributionORM.experiment_id)).limit(1)
+            if query.monte_carlo_count is not None:
+                stmt = stmt.where(
+                    LimitDistributionORM.monte_carlo_count == query.monte_carlo_count
+                )
+            stmt = stmt.order_by(
+                desc(LimitDistributionORM.monte_carlo_count),
+                desc(LimitDistributionORM.experiment_id),
+            ).limit(1)
             result = session.execute(stmt).scalar_one_or_none()
             return result.to_model() if result else None
 
-- 
2.43.0


From 3d3ad0415e6c0db89404fccf9015e982392231fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:11 +0000
Subject: [PATCH 16/23] fix: do not sort the caller's sample in place

---
 .../statistics/goodness_of_fit/exponent.py        | 15 +++++++--------
 .../goodness_of_fit/graph_goodness_of_fit.py      |  6 +++---
 .../statistics/goodness_of_fit/normal.py          |  6 ++----
 3 files changed, 12 insertions(+), 15 deletions(-)

diff --git a/src/pysatl_criterion/statistics/goodness_of_fit/exponent.py b/src/pysatl_criterion/statistics/goodness_of_fit/exponent.py
index 7eb11a6..ac208a6 100644
--- a/src/pysatl_criterion/statistics/goodness_of_fit/exponent.py
+++ b/src/pysatl_criterion/statistics/goodness_of_fit/exponent.py
@@ -459,7 +459,7 @@ class EpsteinExponentialityGofStatistic(AbstractExponentialityGofStatistic):
         """
 
         n = len(rvs)
-        rvs.sort()
+        rvs = np.sort(rvs)
         x = np.concatenate(([0], rvs))
         d = (np.arange(n, 0, -1)) * (x[1 : n + 1] - x[0:n])
         eps = 2 * n * (np.log(np.sum(d) / n) - (np.sum(np.log(d))) / n) / (1 + (n + 1) / (6 * n))
@@ -509,8 +509,7 @@ class FroziniExponentialityGofStatistic(AbstractExponentialityGofStatistic):
         """
 
         n = len(rvs)
-        rvs.sort()
-        rvs = np.array(rvs)
+        rvs = np.sort(rvs)
         y = np.mean(rvs)
         froz = (1 / np.sqrt(n)) * np.sum(
             np.abs(1 - np.exp(-rvs / y) - (np.arange(1, n + 1) - 0.5) / n)
@@ -820,7 +819,7 @@ class KimberMichaelExponentialityGofStatistic(AbstractExponentialityGofStatistic
         """
 
         n = len(rvs)
-        rvs.sort()
+        rvs = np.sort(rvs)
         y = np.mean(rvs)
         s = (2 / np.pi) * np.arcsin(np.sqrt(1 - np.exp(-(rvs / y))))
         r = (2 / np.pi) * np.arcsin(np.sqrt((np.arange(1, n + 1) - 0.5) / n))
@@ -871,7 +870,7 @@ class KocharExponentialityGofStatistic(AbstractExponentialityGofStatistic):
         """
 
         n = len(rvs)
-        rvs.sort()
+        rvs = np.sort(rvs)
         u = np.array([(i + 1) / (n + 1) for i in range(n)])
         j = 2 * (1 - u) * (1 - np.log(1 - u)) - 1
         kc = np.sqrt(108 * n / 17) * (np.sum(j * rvs)) / np.sum(rvs)
@@ -922,7 +921,7 @@ class LorenzExponentialityGofStatistic(AbstractExponentialityGofStatistic):
         """
 
         n = len(rvs)
-        rvs.sort()
+        rvs = np.sort(rvs)
         lz = sum(rvs[: int(n * p)]) / sum(rvs)
 
         return lz
@@ -1066,7 +1065,7 @@ class ShapiroWilkExponentialityGofStatistic(AbstractExponentialityGofStatistic):
         """
 
         n = len(rvs)
-        rvs.sort()
+        rvs = np.sort(rvs)
         y = np.mean(rvs)
         sw = n * (y - rvs[0]) ** 2 / ((n - 1) * np.sum((rvs - y) ** 2))
 
@@ -1285,7 +1284,7 @@ class HegazyGreen2ExponentialityGofStatistic(AbstractExponentialityGofStatistic)
         """
 
         n = len(rvs)
-        rvs.sort()
+        rvs = np.sort(rvs)
         b = -np.log(1 - np.arange(1, n + 1) / (n + 1))
         hg = (n ** (-1)) * np.sum((rvs - b) ** 2)
 
diff --git a/src/pysatl_criterion/statistics/goodness_of_fit/graph_goodness_of_fit.py b/src/pysatl_criterion/statistics/goodness_of_fit/graph_goodness_of_fit.py
index e3ceff6..dee1642 100644
--- a/src/pysatl_criterion/statistics/goodness_of_fit/graph_goodness_of_fit.py
+++ b/src/pysatl_criterion/statistics/goodness_of_fit/graph_goodness_of_fit.py
@@ -188,7 +188,7 @@ class GraphCliqueNumberTestStatistic(AbstractGraphTestStatistic):
         :return: size of the maximum clique.
         """
         dist = self._compute_dist(rvs)
-        rvs.sort()
+        rvs = sorted(rvs)
 
         right_border = 0
         clique_number = 0
@@ -225,11 +225,11 @@ class GraphIndependenceNumberTestStatistic(AbstractGraphTestStatistic):
         :param rvs: array of observed data samples.
         :return: size of the maximum independent set.
         """
-        if not rvs:
+        if len(rvs) == 0:
             return 0
 
         dist = self._compute_dist(rvs)
-        rvs.sort()
+        rvs = sorted(rvs)
 
         stat = 1
         last_chosen_position = rvs[0]
diff --git a/src/pysatl_criterion/statistics/goodness_of_fit/normal.py b/src/pysatl_criterion/statistics/goodness_of_fit/normal.py
index 4779330..2ccce6d 100644
--- a/src/pysatl_criterion/statistics/goodness_of_fit/normal.py
+++ b/src/pysatl_criterion/statistics/goodness_of_fit/normal.py
@@ -839,8 +839,7 @@ class Hosking3NormalityGofStatistic(AbstractNormalityGofStatistic):
         n = len(x)
 
         if n > 3:
-            x_tmp = x[:n]
-            x_tmp.sort()
+            x_tmp = np.sort(x)
             l22 = 0.0
             l32 = 0.0
             l42 = 0.0
@@ -907,8 +906,7 @@ class Hosking4NormalityGofStatistic(AbstractNormalityGofStatistic):
         n = len(x)
 
         if n > 3:
-            x_tmp = x[:n]
-            x_tmp.sort()
+            x_tmp = np.sort(x)
             l23 = 0.0
             l33 = 0.0
             l43 = 0.0
-- 
2.43.0


From aef0b30df78413c2d9ab85e22790830438bc1b23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:11 +0000
Subject: [PATCH 17/23] fix: initialise the Ryan-Joiner statistic completely

---
 src/pysatl_criterion/statistics/goodness_of_fit/normal.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pysatl_criterion/statistics/goodness_of_fit/normal.py b/src/pysatl_criterion/statistics/goodness_of_fit/normal.py
index 2ccce6d..61088e0 100644
--- a/src/pysatl_criterion/statistics/goodness_of_fit/normal.py
+++ b/src/pysatl_criterion/statistics/goodness_of_fit/normal.py
@@ -554,7 +554,7 @@ class LooneyGulledgeNormalityGofStatistic(AbstractNormalityGofStatistic):
 class RyanJoinerNormalityGofStatistic(AbstractNormalityGofStatistic):
     @override
     def __init__(self, weighted=False, cte_alpha="3/8"):
-        super(AbstractNormalityGofStatistic).__init__()
+        super().__init__()
         self.weighted = weighted
         self.cte_alpha = cte_alpha
 
-- 
2.43.0


From 8f01791a6a2cfda8193645d609cd286e56391419 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:11 +0000
Subject: [PATCH 18/23] fix: let the Brys-Hubert-Struyf statistic terminate

---
 src/pysatl_criterion/statistics/goodness_of_fit/normal.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pysatl_criterion/statistics/goodness_of_fit/normal.py b/src/pysatl_criterion/statistics/goodness_of_fit/normal.py
index 61088e0..5e9ad64 100644
--- a/src/pysatl_criterion/statistics/goodness_of_fit/normal.py
+++ b/src/pysatl_criterion/statistics/goodness_of_fit/normal.py
@@ -2269,11 +2269,11 @@ class BHSNormalityGofStatistic(AbstractNormalityGofStatistic):
 
     @staticmethod
     def whi_med_i(a, w, n, a_cand, a_srt, w_cand):
-        w_tot = sum(w)
+        w_tot = sum(w[:n])
         w_rest = 0
 
         while True:
-            a_srt[:] = sorted(a)
+            a_srt[:n] = sorted(a[:n])
             n2 = n // 2
             trial = a_srt[n2]
 
-- 
2.43.0


From 2c7147ca76b1005d4b0b9993932cdd3a27a80824 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:38 +0000
Subject: [PATCH 19/23] fix: make the Weibull statistics that always raised
 computable

---
 src/pysatl_criterion/statistics/goodness_of_fit/weibull.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/pysatl_criterion/statistics/goodness_of_fit/weibull.py b/src/pysatl_criterion/statistics/goodness_of_fit/weibull.py
index dca4572..b8a70a9 100644
--- a/src/pysatl_criterion/statistics/goodness_of_fit/weibull.py
+++ b/src/pysatl_criterion/statistics/goodness_of_fit/weibull.py
@@ -262,7 +262,7 @@ class AndersonDarlingWeibullGofStatistic(AbstractWeibullGofStatistic, ADStatisti
         logcdf = distributions.gumbel_l.logcdf(w)
         logsf = distributions.gumbel_l.logsf(w)
 
-        return super().do_execute_statistic(rvs, log_cdf=logcdf, log_sf=logsf, w=w)
+        return super().do_execute_statistic(rvs, log_cdf=logcdf, log_sf=logsf)
 
 
 class KolmogorovSmirnovWeibullGofStatistic(AbstractWeibullGofStatistic, KSStatistic):
@@ -1348,7 +1348,7 @@ class LaplaceTransform2WeibullGofStatistic(LaplaceTransformWeibullGofStatistic):
         :param a: shift parameter.
         :return: LT2 test statistic value.
         """
-        return super().execute_statistic(rvs, m, a, self.code())
+        return super().execute_statistic(rvs, m, a, "LT2_WEIBULL")
 
 
 class LaplaceTransform3WeibullGofStatistic(LaplaceTransformWeibullGofStatistic):
@@ -1390,7 +1390,7 @@ class LaplaceTransform3WeibullGofStatistic(LaplaceTransformWeibullGofStatistic):
         :param a: shift parameter.
         :return: LT3 test statistic value.
         """
-        return super().execute_statistic(rvs, m, a, self.code())
+        return super().execute_statistic(rvs, m, a, "LT3_WEIBULL")
 
 
 # TODO: Check it. Throws exception on weibull test
@@ -1439,6 +1439,7 @@ class CabanaQuirozWeibullGofStatistic(AbstractWeibullGofStatistic):
         v2 = 0.53
         v12 = 0.91
 
+        rvs = np.asarray(rvs)
         n = len(rvs)
 
         e1 = np.exp(-rvs * s1)
-- 
2.43.0


From 0f821048191b60c9c3d2b22e30a1718147db33df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:06 +0000
Subject: [PATCH 20/23] fix: state the location and scale of Student hypotheses

---
 src/pysatl_criterion/generator/generators.py    | 17 +++++++++++++----
 .../statistics/goodness_of_fit/student.py       |  6 +++++-
 2 files changed, 18 insertions(+), 5 deletions(-)

diff --git a/src/pysatl_criterion/generator/generators.py b/src/pysatl_criterion/generator/generators.py
index 063eeba..f5d4d6d 100644
--- a/src/pysatl_criterion/generator/generators.py
+++ b/src/pysatl_criterion/generator/generators.py
@@ -263,16 +263,25 @@ class TRVSGenerator(AbstractRVSGenerator):
     ----------
     df : float
         Degrees of freedom.
+    loc : float, default=0
+        Location parameter.
+    scale : float, default=1
+        Scale parameter.
     """
 
-    def __init__(self, df, **kwargs):
+    def __init__(self, df, *, loc=0, scale=1, **kwargs):
         super().__init__(**kwargs)
         self.df = df
+        self.loc = loc
+        self.scale = scale
 
     @override
     def parameters(self) -> dict[str, float]:
         """Return Student's t-distribution parameters."""
-        return {"df": self.df}
+        params = {"df": self.df}
+        if self.loc != 0 or self.scale != 1:
+            params.update(loc=self.loc, scale=self.scale)
+        return params
 
     @staticmethod
     @override
@@ -283,12 +292,12 @@ class TRVSGenerator(AbstractRVSGenerator):
     @override
     def code(self):
         """Return unique generator code."""
-        return super()._convert_to_code([self.distribution_type(), self.df])
+        return super()._convert_to_code([self.distribution_type(), *self.parameters().values()])
 
     @override
     def generate(self, size):
         """Generate Student's t-distributed random sample."""
-        return generate_t(size=size, df=self.df)
+        return self.loc + self.scale * generate_t(size=size, df=self.df)
 
 
 class TukeyRVSGenerator(AbstractRVSGenerator):
diff --git a/src/pysatl_criterion/statistics/goodness_of_fit/student.py b/src/pysatl_criterion/statistics/goodness_of_fit/student.py
index 7780f55..1061a54 100644
--- a/src/pysatl_criterion/statistics/goodness_of_fit/student.py
+++ b/src/pysatl_criterion/statistics/goodness_of_fit/student.py
@@ -32,7 +32,11 @@ class AbstractStudentGofStatistic(AbstractGoodnessOfFitStatistic, ABC):
 
     @override
     def hypothesis(self) -> GoodnessOfFitHypothesis:
-        return GoodnessOfFitHypothesis({"df": self.df})
+        params = {"df": self.df}
+        # only when not standard: the keys of stored distributions stay as they are
+        if self.loc != 0 or self.scale != 1:
+            params.update(loc=self.loc, scale=self.scale)
+        return GoodnessOfFitHypothesis(params)
 
     @staticmethod
     @override
-- 
2.43.0


From 6b25420077c52b2bc1a8ab245f433265924e2fd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:11 +0000
Subject: [PATCH 21/23] fix: list available criteria in a stable order

---
 src/pysatl_criterion/utils/statistic.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/pysatl_criterion/utils/statistic.py b/src/pysatl_criterion/utils/statistic.py
index a093d06..f0768e1 100644
--- a/src/pysatl_criterion/utils/statistic.py
+++ b/src/pysatl_criterion/utils/statistic.py
@@ -20,11 +20,12 @@ def get_available_criteria(distribution: DistributionType) -> list[str]:
     :return: list of short codes corresponding to all non-abstract subclasses of
     distribution.base_class.
     """
-    return [
+    # sorted: the iteration order of a set of classes differs between processes
+    return sorted(
         cls.short_code()
         for cls in __get_all_subclasses(AbstractGoodnessOfFitStatistic)
         if not inspect.isabstract(cls) and cls.distribution() == distribution
-    ]
+    )
 
 
 def __get_all_subclasses(cls: type[Any]) -> set[type[AbstractGoodnessOfFitStatistic]]:
-- 
2.43.0


From 8c215d3022e0afa2806290f7894ed84205c2aa9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:16 +0000
Subject: [PATCH 22/23] fix: list available criteria whatever was imported
 before

---
 src/pysatl_criterion/utils/statistic.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/pysatl_criterion/utils/statistic.py b/src/pysatl_criterion/utils/statistic.py
index f0768e1..58c61f0 100644
--- a/src/pysatl_criterion/utils/statistic.py
+++ b/src/pysatl_criterion/utils/statistic.py
@@ -1,3 +1,4 @@
+import importlib
 import inspect
 from typing import Any
 
@@ -20,6 +21,7 @@ def get_available_criteria(distribution: DistributionType) -> list[str]:
     :return: list of short codes corresponding to all non-abstract subclasses of
     distribution.base_class.
     """
+    _load_statistics()
     # sorted: the iteration order of a set of classes differs between processes
     return sorted(
         cls.short_code()
@@ -28,6 +30,11 @@ def get_available_criteria(distribution: DistributionType) -> list[str]:
     )
 
 
+def _load_statistics() -> None:
+    """Import concrete statistic classes so subclass discovery can find them."""
+    importlib.import_module("pysatl_criterion.statistics.goodness_of_fit")
+
+
 def __get_all_subclasses(cls: type[Any]) -> set[type[AbstractGoodnessOfFitStatistic]]:
     """
     Return all direct and indirect subclasses of a class.
-- 
2.43.0


From cb31b63963e00eff3ed7faba065f9cc4301b98a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:20 +0000
Subject: [PATCH 23/23] =?UTF-8?q?fix:=20keep=20=C5=A0id=C3=A1k-adjusted=20?=
 =?UTF-8?q?tiny=20p-values=20from=20vanishing?=
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

---
 .../hypothesis_testing/multiple_testing/fwer.py | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/src/pysatl_criterion/hypothesis_testing/multiple_testing/fwer.py b/src/pysatl_criterion/hypothesis_testing/multiple_testing/fwer.py
index 051c182..c7774e9 100644
--- a/src/pysatl_criterion/hypothesis_testing/multiple_testing/fwer.py
+++ b/src/pysatl_criterion/hypothesis_testing/multiple_testing/fwer.py
@@ -1,8 +1,21 @@
+import math
+
 from pysatl_criterion.hypothesis_testing.multiple_testing.abstract_multiple_testing import (
     AbstractMultipleTesting,
 )
 
 
+def _sidak(p_value: float, m: int) -> float:
+    """
+    Compute 1 - (1 - p_value) ** m without losing small p-values to rounding.
+
+    :param p_value: raw p-value between 0 and 1.
+    :param m: number of hypotheses.
+    :return: adjusted p-value.
+    """
+    return -math.expm1(m * math.log1p(-p_value)) if p_value < 1 else 1.0
+
+
 class BonferroniMultipleTesting(AbstractMultipleTesting):
     """
     Bonferroni correction method for multiple testing.
@@ -52,7 +65,7 @@ class SidakMultipleTesting(AbstractMultipleTesting):
 
         cls._validate_p_values(p_values)
         m = len(p_values)
-        p_values_adjusted = [1 - (1 - p_value) ** m for p_value in p_values]
+        p_values_adjusted = [_sidak(p_value, m) for p_value in p_values]
         return p_values_adjusted
 
     @classmethod
@@ -121,4 +134,4 @@ class SidakHolm(AbstractMultipleTesting):
         n = len(p_values)
         if n == 0:
             return []
-        return [min(1.0, 1 - (1 - p) ** n) for p in p_values]
+        return [min(1.0, _sidak(p, n)) for p in p_values]
-- 
2.43.0

