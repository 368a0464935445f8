From 5008ab82fcd39863e66eed9abc30a5704263a719 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:41 +0000
Subject: [PATCH 01/43] fix: write project files atomically so a crash or full
 disk cannot truncate them

---
 pyfileconf/io/file/interfaces/config.py   |  4 +--
 pyfileconf/io/file/interfaces/datadict.py |  4 +--
 pyfileconf/io/file/interfaces/pipeline.py |  4 +--
 pyfileconf/io/file/write/atomic.py        | 34 +++++++++++++++++++++++
 pyfileconf/main.py                        |  7 ++---
 pyfileconf/pipelines/models/collection.py |  4 +--
 6 files changed, 45 insertions(+), 12 deletions(-)
 create mode 100644 pyfileconf/io/file/write/atomic.py

diff --git a/pyfileconf/io/file/interfaces/config.py b/pyfileconf/io/file/interfaces/config.py
index a8a5200..d1f9a11 100644
--- a/pyfileconf/io/file/interfaces/config.py
+++ b/pyfileconf/io/file/interfaces/config.py
@@ -3,6 +3,7 @@ if TYPE_CHECKING:
     from pyfileconf.basemodels.config import ConfigBase
 
 from pyfileconf.io.file.load.lazy.config import ConfigFileLoader
+from pyfileconf.io.file.write.atomic import write_file_atomically
 from pyfileconf.io.file.write.config import ConfigFileStr
 
 class ConfigFileInterface(ConfigFileLoader):
@@ -15,5 +16,4 @@ class ConfigFileInterface(ConfigFileLoader):
             existing_body=self.assignment_body
         )
 
-        with open(self.filepath, 'w', newline='\n', encoding='utf8') as f:
-            f.write(file_str_obj.file_str)
\ No newline at end of file
+        write_file_atomically(self.filepath, file_str_obj.file_str, newline='\n', encoding='utf8')
\ No newline at end of file
diff --git a/pyfileconf/io/file/interfaces/datadict.py b/pyfileconf/io/file/interfaces/datadict.py
index 7c7c78a..e24d757 100644
--- a/pyfileconf/io/file/interfaces/datadict.py
+++ b/pyfileconf/io/file/interfaces/datadict.py
@@ -5,6 +5,7 @@ if TYPE_CHECKING:
 
 from pyfileconf.assignments.models.container import AssignmentStatementContainer
 from pyfileconf.io.file.load.lazy.datadict import SpecificClassDictLoader
+from pyfileconf.io.file.write.atomic import write_file_atomically
 from pyfileconf.io.file.write.base import FileStr
 
 
@@ -19,5 +20,4 @@ class SpecificClassDictInterface(SpecificClassDictLoader):
             existing_body=[]
         )
 
-        with open(self.filepath, 'w', newline='\n', encoding='utf8') as f:
-            f.write(file_str_obj.file_str)
\ No newline at end of file
+        write_file_atomically(self.filepath, file_str_obj.file_str, newline='\n', encoding='utf8')
\ No newline at end of file
diff --git a/pyfileconf/io/file/interfaces/pipeline.py b/pyfileconf/io/file/interfaces/pipeline.py
index 1cac03f..fa5d797 100644
--- a/pyfileconf/io/file/interfaces/pipeline.py
+++ b/pyfileconf/io/file/interfaces/pipeline.py
@@ -5,6 +5,7 @@ from pyfileconf.assignments.models.container import AssignmentStatementContainer
 if TYPE_CHECKING:
     from pyfileconf.basemodels.config import ConfigBase
 from pyfileconf.io.file.load.lazy.pipeline import PipelineDictLoader
+from pyfileconf.io.file.write.atomic import write_file_atomically
 from pyfileconf.io.file.write.base import FileStr
 
 
@@ -19,5 +20,4 @@ class PipelineDictInterface(PipelineDictLoader):
             existing_body=[]
         )
 
-        with open(self.filepath, 'w', newline='\n', encoding='utf8') as f:
-            f.write(file_str_obj.file_str)
\ No newline at end of file
+        write_file_atomically(self.filepath, file_str_obj.file_str, newline='\n', encoding='utf8')
\ No newline at end of file
diff --git a/pyfileconf/io/file/write/atomic.py b/pyfileconf/io/file/write/atomic.py
new file mode 100644
index 0000000..7ce2b22
--- /dev/null
+++ b/pyfileconf/io/file/write/atomic.py
@@ -0,0 +1,34 @@
+import os
+import shutil
+from typing import Optional
+
+
+def write_file_atomically(filepath: str, content: str, newline: Optional[str] = None,
+                          encoding: Optional[str] = None) -> None:
+    """
+    Writes the file so that at any moment it has either its complete previous content
+    or its complete new content, even if the write fails or the process dies part way through
+
+    :param filepath: file to create or replace
+    :param content: full content of the file
+    :param newline: passed to open
+    :param encoding: passed to open
+    :return:
+    """
+    target = os.path.realpath(filepath)  # keep symlinks, replace what they point to
+    folder, file_name = os.path.split(target)
+    # Not a .py file, so is never mistaken for a config file if left over after a crash
+    temp_path = os.path.join(folder, f'.{file_name}.tmp')
+
+    try:
+        with open(temp_path, 'w', newline=newline, encoding=encoding) as f:
+            f.write(content)
+        if os.path.exists(target):
+            shutil.copymode(target, temp_path)
+        os.replace(temp_path, target)
+    except BaseException:
+        try:
+            os.remove(temp_path)
+        except OSError:
+            pass
+        raise
diff --git a/pyfileconf/main.py b/pyfileconf/main.py
index 31f9ecf..5c6251b 100644
--- a/pyfileconf/main.py
+++ b/pyfileconf/main.py
@@ -23,6 +23,7 @@ from pyfileconf.dictfiles.modify import add_item_into_nested_dict_at_section_pat
 from pyfileconf.imports.logic.load.name import get_module_and_name_imported_from
 from pyfileconf.imports.models.statements.container import ImportStatementContainer
 from pyfileconf.imports.models.statements.obj import ObjectImportStatement
+from pyfileconf.io.file.write.atomic import write_file_atomically
 from pyfileconf.iterate import IterativeRunner
 from pyfileconf.logger.logger import logger
 from pyfileconf.logic.combine import \
@@ -719,15 +720,13 @@ def create_project(path: str, logs_path: str,
     if logs_path is not None and not os.path.exists(logs_path):
         os.makedirs(logs_path)
     if not os.path.exists(pipeline_path):
-        with open(pipeline_path, 'w') as f:
-            f.write('\npipeline_dict = {}\n')
+        write_file_atomically(pipeline_path, '\npipeline_dict = {}\n')
     if specific_class_config_dicts:
         for specific_class_config in specific_class_config_dicts:
             name = specific_class_config['name']
             dict_path = os.path.join(path, f'{name}_dict.py')
             if not os.path.exists(dict_path):
-                with open(dict_path, 'w') as f:
-                    f.write(f'\nclass_dict = {{}}\n')
+                write_file_atomically(dict_path, '\nclass_dict = {}\n')
 
 
 
diff --git a/pyfileconf/pipelines/models/collection.py b/pyfileconf/pipelines/models/collection.py
index 00e9815..5f9e532 100644
--- a/pyfileconf/pipelines/models/collection.py
+++ b/pyfileconf/pipelines/models/collection.py
@@ -1,5 +1,6 @@
 import os
 
+from pyfileconf.io.file.write.atomic import write_file_atomically
 from pyfileconf.pipelines.models.config import FunctionConfig
 from pyfileconf.logic.get import _get_public_name_or_special_name
 from pyfileconf.pipelines.models.interfaces import ObjectViewOrCollection
@@ -72,8 +73,7 @@ class PipelineCollection(Collection):
             # Never overwrite section config.
             return
 
-        with open(outpath, 'w') as f:
-            f.write('\n')
+        write_file_atomically(outpath, '\n')
 
 
 
-- 
2.43.0


From 445885f75a36331cf7bbba146310b60c11e1f131 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:41 +0000
Subject: [PATCH 02/43] fix: give standard output back when a run with captured
 output fails

---
 pyfileconf/logger/bind_stdout.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pyfileconf/logger/bind_stdout.py b/pyfileconf/logger/bind_stdout.py
index 559c2bd..599aae1 100644
--- a/pyfileconf/logger/bind_stdout.py
+++ b/pyfileconf/logger/bind_stdout.py
@@ -8,8 +8,10 @@ from pyfileconf.logger.logger import logger
 def stdout_also_logged():
     stdout_logger = StdoutLogger()
     sys.stdout = stdout_logger  # type: ignore
-    yield stdout_logger
-    sys.stdout = stdout_logger.terminal
+    try:
+        yield stdout_logger
+    finally:
+        sys.stdout = stdout_logger.terminal
 
 
 class StdoutLogger(object):
-- 
2.43.0


From b9d93bd3be24030f9e101b52140490146f8f443e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:43 +0000
Subject: [PATCH 03/43] fix: keep exactly one log file handler matching the
 options, also when changing or failing to set them

---
 pyfileconf/logger/logger.py | 27 +++++++++++++++++++--------
 pyfileconf/opts/__init__.py | 14 +++++++++++---
 pyfileconf/opts/filelog.py  |  9 ++++++++-
 3 files changed, 38 insertions(+), 12 deletions(-)

diff --git a/pyfileconf/logger/logger.py b/pyfileconf/logger/logger.py
index 64046f0..84e3d06 100644
--- a/pyfileconf/logger/logger.py
+++ b/pyfileconf/logger/logger.py
@@ -2,6 +2,7 @@ import logging
 import os
 import sys
 from logging.handlers import TimedRotatingFileHandler
+from typing import Optional
 
 
 class CustomFormatter(logging.Formatter):
@@ -27,9 +28,15 @@ ch.setFormatter(CustomFormatter())
 logger.addHandler(ch)
 
 
+# The handler for the file in options.log_folder, if there is one
+_file_handler: Optional[TimedRotatingFileHandler] = None
+
+
 def add_file_handler():
     from pyfileconf.opts import options
 
+    global _file_handler
+
     if options.log_folder is None:
         raise ValueError(f'Cannot enable logging file handler as no log_folder is set in options')
     if not os.path.exists(options.log_folder):
@@ -40,15 +47,19 @@ def add_file_handler():
     )
     fh.setLevel(logging.DEBUG)
     fh.setFormatter(CustomFormatter())
+    # Only now that the new handler is known to work, stop using the previous one if there was one
+    remove_file_handler()
+    _file_handler = fh
     logger.addHandler(fh)
 
 
 def remove_file_handler():
-    timed_handlers = [h for h in logger.handlers if isinstance(h, TimedRotatingFileHandler)]
-    if len(timed_handlers) != 1:
-        raise ValueError(f'Could not remove pyfileconf TimedRotatingFileHandler. '
-                         f'Expected 1 registered TimedRotatingFileHandler, '
-                         f'got {len(timed_handlers)}')
-    timed_handler = timed_handlers[0]
-    timed_handler.close()
-    logger.handlers = [h for h in logger.handlers if h is not timed_handler]
+    global _file_handler
+
+    if _file_handler is None:
+        return
+
+    handler = _file_handler
+    _file_handler = None
+    logger.removeHandler(handler)
+    handler.close()
diff --git a/pyfileconf/opts/__init__.py b/pyfileconf/opts/__init__.py
index cc630e2..0361b70 100644
--- a/pyfileconf/opts/__init__.py
+++ b/pyfileconf/opts/__init__.py
@@ -15,7 +15,8 @@ being set as the second argument.
 from typing import Any, Tuple, Dict, Type, Iterable, List, Optional, Callable
 
 from pyfileconf.logger.logger import logger
-from pyfileconf.opts.filelog import add_file_handler_if_log_folder_exists_else_remove_handler
+from pyfileconf.opts.filelog import add_file_handler_if_log_folder_exists_else_remove_handler, \
+    recreate_file_handler_if_exists
 
 
 class PyfileconfOptions:
@@ -32,7 +33,9 @@ class PyfileconfOptions:
     )
 
     option_callbacks: Dict[str, Callable[[str, Any], None]] = {
-        'log_folder': add_file_handler_if_log_folder_exists_else_remove_handler
+        'log_folder': add_file_handler_if_log_folder_exists_else_remove_handler,
+        'log_file_rollover_freq': recreate_file_handler_if_exists,
+        'log_file_num_keep': recreate_file_handler_if_exists,
     }
 
     def __init__(self, log_stdout: bool = False, log_folder: Optional[str] = None,
@@ -73,7 +76,12 @@ class PyfileconfOption:
         orig_value = getattr(options, self.name)
         setattr(options, self.name, val)
         if self.callback is not None and orig_value != val:
-            self.callback(self.name, val)
+            try:
+                self.callback(self.name, val)
+            except BaseException:
+                # Could not apply the option, so it must not look like it is set
+                setattr(options, self.name, orig_value)
+                raise
 
     @property
     def default_value(self) -> Any:
diff --git a/pyfileconf/opts/filelog.py b/pyfileconf/opts/filelog.py
index b33147e..3d9755f 100644
--- a/pyfileconf/opts/filelog.py
+++ b/pyfileconf/opts/filelog.py
@@ -1,4 +1,4 @@
-from typing import Optional
+from typing import Any, Optional
 
 from pyfileconf.logger.logger import add_file_handler, remove_file_handler
 
@@ -8,3 +8,10 @@ def add_file_handler_if_log_folder_exists_else_remove_handler(attr_name: str, lo
         add_file_handler()
     else:
         remove_file_handler()
+
+
+def recreate_file_handler_if_exists(attr_name: str, value: Any):
+    from pyfileconf.opts import options
+
+    if options.log_folder is not None:
+        add_file_handler()
-- 
2.43.0


From 6c13dba1a5115a3c40f5dbcd70b0a2716f7988de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:06 +0000
Subject: [PATCH 04/43] fix: attribute lookups of items and sections must not
 affect later lookups

---
 pyfileconf/runner/models/runner.py | 25 +++++++++++--------------
 1 file changed, 11 insertions(+), 14 deletions(-)

diff --git a/pyfileconf/runner/models/runner.py b/pyfileconf/runner/models/runner.py
index 0218935..7d3ae56 100644
--- a/pyfileconf/runner/models/runner.py
+++ b/pyfileconf/runner/models/runner.py
@@ -44,25 +44,22 @@ class Runner(ReprMixin):
         self._loaded_objects: Dict[str, Any] = {}
 
     def __getattr__(self, item):
-        # TODO [#14]: find way of doing runner look ups with fewer side effects
         # TODO [#15]: find a way to get __getattr__ logic for runner working for sections
-        self._full_getattr += item
-        try:
-            func_or_collection = self._get_func_or_collection(self._full_getattr)
-        except KeyError as e:
-            self._full_getattr = '' # didn't find an item, must be incorrect path. reset total path
-            raise e
+        full_getattr = self._full_getattr + item
+        func_or_collection = self._get_func_or_collection(full_getattr)
 
         if isinstance(func_or_collection, (PipelineCollection, SpecificClassCollection)):
-            # Got section, need to keep going. Return self
-            self._full_getattr += '.' # add period to separate next section
-            return self
+            # Got section, need to keep going. Return a view of this runner which continues from the section
+            return self._view_for_section(full_getattr)
         else:
             # Got function or class, return the function or class itself
-            full_getattr = self._full_getattr
-            self._full_getattr = ''  # found the item, reset for next time
-            configured_func_or_class = self.get(full_getattr)
-            return configured_func_or_class
+            return self.get(full_getattr)
+
+    def _view_for_section(self, section_path_str: str) -> 'Runner':
+        view = self.__class__.__new__(self.__class__)
+        view.__dict__.update(self.__dict__)
+        view._full_getattr = section_path_str + '.'  # add period to separate next section
+        return view
 
     # TODO [#16]: this may work once __getattr__ works with sections
     # def __dir__(self):
-- 
2.43.0


From 266a4005a22f250da45ac843d81bbd84c9e3bd78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:57 +0000
Subject: [PATCH 05/43] fix: apply the whole case in each iteration, as configs
 may have changed since the last case

---
 pyfileconf/plugin/default_hooks.py | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/pyfileconf/plugin/default_hooks.py b/pyfileconf/plugin/default_hooks.py
index 100040d..4c284c5 100644
--- a/pyfileconf/plugin/default_hooks.py
+++ b/pyfileconf/plugin/default_hooks.py
@@ -44,17 +44,13 @@ def pyfileconf_iter_update_for_case(
     """
     from pyfileconf.batch import BatchUpdater
 
-    updated_confs: Sequence[Dict[str, Any]]
-    if runner.last_case is not None:
-        updated_confs = [conf for conf in case if conf not in runner.last_case]
-    else:
-        updated_confs = case
-
+    # Always apply the whole case. The configs may have been changed since the last case was applied, and the
+    # last case may have failed. Updates which do not change anything have no effect.
     bu = BatchUpdater(
         base_section_path_str=runner.base_section_path_str,
         strip_manager_from_iv=runner.strip_manager_from_iv,
     )
-    bu.update(updated_confs)
+    bu.update(case)
 
 
 @hookimpl
-- 
2.43.0


From 1c183ed433b1afcd70338cbd24637e21c6caa522 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:36 +0000
Subject: [PATCH 06/43] fix: tell hooks and dependents about changes of items
 not loaded yet, allow any argument names, reset lasting updates

---
 pyfileconf/basemodels/config.py     | 10 +++++++--
 pyfileconf/config/models/manager.py | 32 ++++++++++++++---------------
 pyfileconf/runner/models/runner.py  | 28 +++++++++++++++++--------
 3 files changed, 42 insertions(+), 28 deletions(-)

diff --git a/pyfileconf/basemodels/config.py b/pyfileconf/basemodels/config.py
index b1ed6f5..023aade 100644
--- a/pyfileconf/basemodels/config.py
+++ b/pyfileconf/basemodels/config.py
@@ -71,7 +71,13 @@ class ConfigBase(dict):
         if pyfileconf_persist:
             self._applied_updates.update(all_updates)
 
-        super().update(E, **F)
+        super().update(all_updates)
+
+    def track_applied_updates(self, updates: Dict[str, Any]):
+        """
+        Makes updates last through refreshing, when the config already has the updated values
+        """
+        self._applied_updates.update({key: value for key, value in updates.items() if key in self})
 
     def to_file(self, filepath: str):
 
@@ -130,7 +136,7 @@ class ConfigBase(dict):
         # Reload from file
         new_config = self._get_new_config_from_file()
         all_updates = {**new_config, **self._applied_updates}
-        self.update(pyfileconf_persist=False, **all_updates)
+        self.update(all_updates, pyfileconf_persist=False)
         return all_updates
 
     def would_update(self, E=None, **F) -> bool:
diff --git a/pyfileconf/config/models/manager.py b/pyfileconf/config/models/manager.py
index 2dd815e..9b6870a 100644
--- a/pyfileconf/config/models/manager.py
+++ b/pyfileconf/config/models/manager.py
@@ -58,11 +58,15 @@ class ConfigManager(ReprMixin):
         config_obj = self._get_project_config_or_local_config_by_section_path(section_path_str)
         if config_obj is None:
             raise ConfigManagerNotLoadedException('no config to update')
+        all_updates = {**(d_ or {}), **kwargs}
         would_update = self._determine_and_track_if_config_would_be_updated(
-            config_obj, section_path_str, d_, **kwargs
+            config_obj, section_path_str, all_updates
         )
         if would_update:
-            config_obj.update(d_, pyfileconf_persist=pyfileconf_persist, **kwargs)
+            config_obj.update(all_updates, pyfileconf_persist=pyfileconf_persist)
+        elif pyfileconf_persist:
+            # Nothing changes now, but a temporary update may have set the same values. Must make them last
+            config_obj.track_applied_updates(all_updates)
         return config_obj, would_update
 
     def refresh(self, section_path_str: str) -> Tuple[ConfigBase, bool, Dict[str, Any]]:
@@ -186,15 +190,17 @@ class ConfigManager(ReprMixin):
             new_config = current_config is None
 
         if new_config:
+            # There was no config before, so nothing has changed for anything which was using it
             self._set_func_or_section_config(section_path_str, value=value, allow_create=allow_create)
-            return value, True
+            return value, False
 
         assert current_config is not None  # should never fail this, for mypy
 
         # Not a new config, need to actually determine whether would be updated
-        would_update = self._determine_and_track_if_config_would_be_updated(current_config, section_path_str, **value)
-        if would_update:
-            self._set_func_or_section_config(section_path_str, value=value, allow_create=allow_create)
+        would_update = self._determine_and_track_if_config_would_be_updated(current_config, section_path_str, value)
+        # Replace the config even if it has the same values now, so that the updates
+        # which were made to the current config are not applied again later
+        self._set_func_or_section_config(section_path_str, value=value, allow_create=allow_create)
         return value, would_update
 
     def _get_func_or_section_configs(self, section_path_str: str) -> Optional[ActiveFunctionConfig]:
@@ -315,22 +321,14 @@ class ConfigManager(ReprMixin):
             manager=self, orig_config=config, updates=all_updates, section_path_str=section_path_str
         )
 
-    def track_post_update(self, config_: ConfigBase, section_path_str: str, d: Optional[dict] = None, **updates):
-        if d is None:
-            d = {}
-
-        all_updates = {**d, **updates}
+    def track_post_update(self, config_: ConfigBase, section_path_str: str, all_updates: Dict[str, Any]):
         manager.plm.hook.pyfileconf_post_config_changed(
             manager=self, new_config=config_, updates=all_updates, section_path_str=section_path_str
         )
 
     def _determine_and_track_if_config_would_be_updated(self, config_: ConfigBase,
-                                                        section_path_str: Optional[str] = None,
-                                                        d_: Optional[dict] = None, **updates) -> bool:
-        if d_ is None:
-            d_ = {}
-
-        all_updates = {**d_, **updates}
+                                                        section_path_str: Optional[str],
+                                                        all_updates: Dict[str, Any]) -> bool:
         would_update = config_.would_update(all_updates)
         if would_update and section_path_str is not None:
             self._track_pre_update(config_, section_path_str, all_updates)
diff --git a/pyfileconf/runner/models/runner.py b/pyfileconf/runner/models/runner.py
index 7d3ae56..7b5033c 100644
--- a/pyfileconf/runner/models/runner.py
+++ b/pyfileconf/runner/models/runner.py
@@ -1,5 +1,5 @@
 import inspect
-from typing import Callable, Tuple, cast, Sequence, Type, Union, Dict, Any, List
+from typing import Callable, Tuple, cast, Sequence, Type, Union, Dict, Any, List, Optional
 from functools import partial
 
 from mixins.repr import ReprMixin
@@ -375,9 +375,8 @@ class Runner(ReprMixin):
     def update(self, d_: dict=None, section_path_str: str=None, pyfileconf_persist: bool = True, **kwargs):
         new_config, updated = self._config.update(d_, section_path_str, pyfileconf_persist=pyfileconf_persist, **kwargs)
 
-        if updated and section_path_str in self._loaded_objects:
-            apply_config(self._loaded_objects[section_path_str], new_config)
-            self._config.track_post_update(new_config, section_path_str, d_, **kwargs)
+        if updated:
+            self._apply_config_and_track_post_update(new_config, section_path_str, {**(d_ or {}), **kwargs})
 
     def reset(self, section_path_str: str=None, allow_create: bool = False) -> None:
         """
@@ -385,17 +384,28 @@ class Runner(ReprMixin):
         is passed, resets local config.
         """
         default, updated = self._config.reset(section_path_str=section_path_str, allow_create=allow_create)
-        if updated and section_path_str in self._loaded_objects:
-            apply_config(self._loaded_objects[section_path_str], default)
-            self._config.track_post_update(default, section_path_str, **default)
+        if updated:
+            self._apply_config_and_track_post_update(default, section_path_str, default)
 
     def refresh(self, section_path_str: str):
         config, updated, updates = self._config.refresh(section_path_str)
 
-        if updated and section_path_str in self._loaded_objects:
+        if updated:
             config = self._get_config(section_path_str)
+            self._apply_config_and_track_post_update(config, section_path_str, updates)
+
+    def _apply_config_and_track_post_update(self, config: ActiveFunctionConfig, section_path_str: Optional[str],
+                                            updates: Dict[str, Any]):
+        if section_path_str is None:
+            # Updated local config, there is no item for it
+            return
+
+        if section_path_str in self._loaded_objects:
             apply_config(self._loaded_objects[section_path_str], config)
-            self._config.track_post_update(config, section_path_str, updates)
+
+        # Even if the item has not been loaded in this runner, others may already depend on it,
+        # e.g. because it was loaded before reloading the manager
+        self._config.track_post_update(config, section_path_str, updates)
 
     def _is_specific_class(self, obj: Any) -> bool:
         return self._all_specific_classes and isinstance(obj, self._all_specific_classes)  # type: ignore
-- 
2.43.0


From e03f0b1eeed0b17a4c79a0befa1cd807234e5c79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:55 +0000
Subject: [PATCH 07/43] fix: resetting a section resets the configs in it
 instead of failing

---
 pyfileconf/config/models/manager.py | 18 +++++++++++++++++-
 pyfileconf/runner/models/runner.py  |  7 +++++++
 2 files changed, 24 insertions(+), 1 deletion(-)

diff --git a/pyfileconf/config/models/manager.py b/pyfileconf/config/models/manager.py
index 9b6870a..331bf4e 100644
--- a/pyfileconf/config/models/manager.py
+++ b/pyfileconf/config/models/manager.py
@@ -1,5 +1,5 @@
 import os
-from typing import Union, Any, Optional, Iterable, Dict, TYPE_CHECKING, Tuple, cast
+from typing import Union, Any, Optional, Iterable, Dict, TYPE_CHECKING, Tuple, cast, List
 
 if TYPE_CHECKING:
     from pyfileconf.main import PipelineManager
@@ -109,6 +109,22 @@ class ConfigManager(ReprMixin):
         new_config, updated = self.set(section_path_str, default, allow_create=allow_create)
         return new_config, updated
 
+    def reset_section(self, section_path_str: str) -> Optional[List[str]]:
+        """
+        If the section path is for a section, resets the config of the section itself to default.
+
+        :return: section paths of everything directly inside the section, or None if it is not a section
+        """
+        section_path = SectionPath(section_path_str)
+        try:
+            section = _get_from_nested_obj_by_section_path(self, section_path)
+        except KeyError:
+            return None
+        if not isinstance(section, ConfigSection):
+            return None
+        section.config = ConfigSection.from_files(section_path.to_filepath(self.basepath)).config
+        return [SectionPath.join(section_path, name).path_str for name in section.config_map]
+
     def pop(self, key: str, section_path_str: str=None) -> Any:
         config_obj = self._get_project_config_or_local_config_by_section_path(section_path_str)
         if config_obj is None:
diff --git a/pyfileconf/runner/models/runner.py b/pyfileconf/runner/models/runner.py
index 7b5033c..c8449ee 100644
--- a/pyfileconf/runner/models/runner.py
+++ b/pyfileconf/runner/models/runner.py
@@ -383,6 +383,13 @@ class Runner(ReprMixin):
         Resets a function or section config to default. If no section_path_str
         is passed, resets local config.
         """
+        if section_path_str is not None:
+            nested_section_path_strs = self._config.reset_section(section_path_str)
+            if nested_section_path_strs is not None:
+                for nested_section_path_str in nested_section_path_strs:
+                    self.reset(nested_section_path_str)
+                return
+
         default, updated = self._config.reset(section_path_str=section_path_str, allow_create=allow_create)
         if updated:
             self._apply_config_and_track_post_update(default, section_path_str, default)
-- 
2.43.0


From 5a8b9e5aaf778b119c0e6dd727efd2e58c61a82c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:40 +0000
Subject: [PATCH 08/43] fix: always execute the current content of a config
 file, not stale bytecode

---
 pyfileconf/io/file/load/active/userdef.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/pyfileconf/io/file/load/active/userdef.py b/pyfileconf/io/file/load/active/userdef.py
index b1ba2f1..38cf36a 100644
--- a/pyfileconf/io/file/load/active/userdef.py
+++ b/pyfileconf/io/file/load/active/userdef.py
@@ -1,5 +1,5 @@
 import importlib.util
-from importlib.abc import Loader
+from importlib.machinery import SourceFileLoader
 from types import ModuleType
 import sys
 from typing import Optional
@@ -40,11 +40,14 @@ def _load_file_as_module(filepath: str, name: Optional[str] = 'module.name') ->
 
     spec = importlib.util.spec_from_file_location(name, filepath)
     module = importlib.util.module_from_spec(spec)
-    if spec is None or spec.loader is None or not isinstance(spec.loader, Loader):
+    if spec is None or spec.loader is None or not isinstance(spec.loader, SourceFileLoader):
         raise CouldNotImportException(
             f'got no spec.loader after calling importlib.util.spec_from_file_location on {filepath}'
         )
-    spec.loader.exec_module(module)
+    # Always compile the current source. Executing through the loader would use the cached bytecode of a
+    # previous version of the file if it was edited within the time stamp resolution and kept its size
+    code = spec.loader.source_to_code(spec.loader.get_data(filepath), filepath)
+    exec(code, module.__dict__)
 
     if add_to_sys:
         sys.modules.update({name: module})
-- 
2.43.0


From 1938dcd047036e314ca7d6b784e61b0cd0d346d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:48 +0000
Subject: [PATCH 09/43] fix: running a section runs the classes in it by their
 own section path

---
 pyfileconf/runner/models/runner.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyfileconf/runner/models/runner.py b/pyfileconf/runner/models/runner.py
index c8449ee..0cba6ef 100644
--- a/pyfileconf/runner/models/runner.py
+++ b/pyfileconf/runner/models/runner.py
@@ -165,9 +165,9 @@ class Runner(ReprMixin):
                 # got another section within this section. recursively call run section
                 results.append(self._run_section(subsection_path_str))
             elif self._is_specific_class(section_or_callable):
-                results.append(self._run_one_specific_class(section_path_str))
+                results.append(self._run_one_specific_class(subsection_path_str))
             elif inspect.isclass(section_or_callable):
-                results.append(self._run_one_class(section_path_str))
+                results.append(self._run_one_class(subsection_path_str))
             elif callable(section_or_callable):
                 # run function
                 results.append(self._run_one_func(subsection_path_str))
-- 
2.43.0


From 5e8ebead23d44b53b8eec0c811d56f517239ee99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:17 +0000
Subject: [PATCH 10/43] fix: managers which are not loaded or could not be
 created do not break selectors, and lookups always use the current managers

---
 pyfileconf/main.py                     | 18 +++++++++-----
 pyfileconf/selector/models/selector.py | 33 ++++++++++++++++----------
 2 files changed, 32 insertions(+), 19 deletions(-)

diff --git a/pyfileconf/main.py b/pyfileconf/main.py
index 5c6251b..bc9f653 100644
--- a/pyfileconf/main.py
+++ b/pyfileconf/main.py
@@ -79,9 +79,9 @@ class PipelineManager:
         self._general_registrar: Optional[PipelineRegistrar] = None
 
         self._validate_options()
-        context.active_managers[self.name] = self
         self._create_project_if_needed()
-
+        # Only can be used by others if it was created successfully
+        context.active_managers[self.name] = self
 
     def __getattr__(self, item):
 
@@ -469,12 +469,18 @@ class PipelineManager:
             manager has a config file matching the file path
         """
         abs_filepath = os.path.abspath(filepath)
+        matching_manager: Optional['PipelineManager'] = None
+        matching_path = ''
         for manager in context.active_managers.values():
             manager_path = os.path.abspath(manager.folder)
-            if abs_filepath.startswith(manager_path + os.sep):
-                return manager
-
-        raise NoPipelineManagerForFilepathException
+            # If the folder of a manager is inside the folder of another, the innermost has the file
+            if abs_filepath.startswith(manager_path + os.sep) and len(manager_path) > len(matching_path):
+                matching_manager = manager
+                matching_path = manager_path
+
+        if matching_manager is None:
+            raise NoPipelineManagerForFilepathException
+        return matching_manager
 
     @classmethod
     def get_manager_by_section_path_str(cls, section_path_str: str) -> 'PipelineManager':
diff --git a/pyfileconf/selector/models/selector.py b/pyfileconf/selector/models/selector.py
index 8d7e3ed..01bbf23 100644
--- a/pyfileconf/selector/models/selector.py
+++ b/pyfileconf/selector/models/selector.py
@@ -1,7 +1,8 @@
 import inspect
-from typing import Callable, List, Any
+from typing import Callable, Dict, List, Any
 import warnings
 
+from pyfileconf.exceptions.pipelinemanager import PipelineManagerNotLoadedException
 from pyfileconf.logic.get import _get_from_nested_obj_by_section_path
 from pyfileconf.sectionpath.sectionpath import SectionPath
 from pyfileconf.pipelines.models.collection import PipelineCollection
@@ -12,7 +13,6 @@ class Selector:
 
     def __init__(self):
         self._attach_to_pipeline_manager()
-        self._load_structure()
         self._is_selector = True
 
     def __contains__(self, item):
@@ -95,18 +95,24 @@ class Selector:
         # Handle accessing correct collection object.
         section_path = SectionPath(section_path_str)
         manager_name = section_path[0]
+        structure = self._structure
 
         if len(section_path) == 1:
             # Got only the manager, e.g. project
             # return only the manager itself
             return self._managers[manager_name], None
 
+        if manager_name in self._managers and manager_name not in structure:
+            raise PipelineManagerNotLoadedException(
+                f'call load on the PipelineManager {manager_name} before selecting items from it'
+            )
+
         if section_path[1] in self._managers[manager_name].specific_class_names:
             # got a specific class path
             if len(section_path) == 2:
                 # got only the root data path, e.g. project.sources
                 # return the collection object itself
-                return self._structure[manager_name][section_path[1]], None
+                return structure[manager_name][section_path[1]], None
             collection_name = section_path[1]
             section_path_begin_index = 2
         else:
@@ -114,7 +120,7 @@ class Selector:
             section_path_begin_index = 1
 
         relative_section_path = SectionPath('.'.join(section_path[section_path_begin_index:]))
-        collection_obj = self._structure[manager_name][collection_name]
+        collection_obj = structure[manager_name][collection_name]
 
         return collection_obj, relative_section_path
 
@@ -168,12 +174,15 @@ class Selector:
         from pyfileconf import context
         self._managers = context.active_managers
 
-    def _load_structure(self):
-        from pyfileconf.main import create_collections
-        from pyfileconf import PipelineManager
-        out_dict = {}
-        manager: PipelineManager
-        for manager_name, manager in self._managers.items():
+    @property
+    def _structure(self) -> Dict[str, Dict[str, Any]]:
+        # Always look up the current collections, as managers may be created, replaced, loaded
+        # and reloaded after the creation of this selector
+        out_dict: Dict[str, Dict[str, Any]] = {}
+        for manager_name, manager in list(self._managers.items()):
+            if manager._general_registrar is None or manager._registrars is None:
+                # Not loaded, there is nothing to select from this manager yet
+                continue
             manager_dict = {
                 '_general': manager._general_registrar.collection,
             }
@@ -183,9 +192,7 @@ class Selector:
                     collection.name: collection
                 })
             out_dict[manager_name] = manager_dict
-        self._structure = out_dict
-
-
+        return out_dict
 
 
 def _is_selector(obj) -> bool:
-- 
2.43.0


From 4b588210321ba2533b5c4c56940931a8923c5745 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:53 +0000
Subject: [PATCH 11/43] fix: a failed or interrupted reload leaves the manager
 as it was

---
 pyfileconf/main.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/pyfileconf/main.py b/pyfileconf/main.py
index bc9f653..60f0fc3 100644
--- a/pyfileconf/main.py
+++ b/pyfileconf/main.py
@@ -305,10 +305,17 @@ class PipelineManager:
         logger.debug(f'Running load for {self.name}')
         self._import_tracker = ImportTracker()
 
+        # If this is a reload and it fails, must keep working with what was loaded before
+        loaded_attrs = ('_registrars', '_general_registrar', 'config', 'runner')
+        previous = {attr: self.__dict__[attr] for attr in loaded_attrs if attr in self.__dict__}
+
         try:
             self._load_pipeline_config_and_runner()
-        except Exception as e:
+        except BaseException as e:
             # Reset loaded modules from import, completely canceling load so it can be tried again
+            for attr in loaded_attrs:
+                self.__dict__.pop(attr, None)
+            self.__dict__.update(previous)
             self._loaded_modules = self._import_tracker.imported_modules
             self._wipe_loaded_modules()
             self._loaded_modules = [] # modules have been wiped, must be sure they won't be wiped again
@@ -575,7 +582,7 @@ class PipelineManager:
         )
 
     def _wipe_loaded_modules(self):
-        [sys.modules.pop(module) for module in self._loaded_modules]
+        [sys.modules.pop(module, None) for module in self._loaded_modules]
 
     def _convert_list_or_single_item_view_or_str_to_strs(self, run_list: 'RunnerArgs') -> Union[str, List[str]]:
         if isinstance(run_list, list):
-- 
2.43.0


From bee225b4419a86374f53d47c8072274d8cc1f93e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:18 +0000
Subject: [PATCH 12/43] fix: reloading picks up edited source of functions and
 classes which pyfileconf imported

---
 pyfileconf/imports/models/tracker.py | 43 ++++++++++++++++++++++++++++
 pyfileconf/main.py                   | 13 ++++++++-
 pyfileconf/views/object.py           | 22 +++++++++++++-
 3 files changed, 76 insertions(+), 2 deletions(-)

diff --git a/pyfileconf/imports/models/tracker.py b/pyfileconf/imports/models/tracker.py
index d0a7f64..e9b57b2 100644
--- a/pyfileconf/imports/models/tracker.py
+++ b/pyfileconf/imports/models/tracker.py
@@ -1,4 +1,11 @@
+import importlib
+import os
 import sys
+from typing import Iterable, Optional, Set
+
+# Modules which were imported by pyfileconf to get a function or class, or which were imported by those modules
+item_modules: Set[str] = set()
+
 
 class ImportTracker:
 
@@ -10,3 +17,39 @@ class ImportTracker:
         current_modules = list(sys.modules.keys())
         return [module for module in current_modules if module not in self.original_modules]
 
+
+def track_item_modules(imported_modules: Iterable[str], item_module_names: Iterable[Optional[str]]) -> None:
+    """
+    :param imported_modules: everything that was imported in getting the item
+    :param item_module_names: the modules from which the item was imported and in which it is defined. Other
+        modules are only tracked if they are in the same packages, so libraries will not be imported again
+    """
+    packages = _get_packages(item_module_names)
+    item_modules.update(module for module in imported_modules if module.split('.')[0] in packages)
+
+
+def wipe_item_modules(item_module_names: Iterable[Optional[str]]) -> None:
+    """
+    Makes sure that the current source will be used the next time the items are imported, for
+    those modules which were only imported by pyfileconf
+
+    :param item_module_names: the modules from which the items are imported and in which they are defined
+    """
+    packages = _get_packages(item_module_names)
+    for module_name in sorted(item_modules):
+        if module_name.split('.')[0] not in packages:
+            continue
+        module = sys.modules.pop(module_name, None)
+        cached_path = getattr(getattr(module, '__spec__', None), 'cached', None)
+        if cached_path is not None:
+            # Python would use the bytecode for a new source with the same size and time stamp
+            try:
+                os.remove(cached_path)
+            except OSError:
+                pass
+    importlib.invalidate_caches()
+
+
+def _get_packages(module_names: Iterable[Optional[str]]) -> Set[str]:
+    # Empty if it is a relative import
+    return {name.split('.')[0] for name in module_names if name} - {''}
diff --git a/pyfileconf/main.py b/pyfileconf/main.py
index 60f0fc3..5e375e1 100644
--- a/pyfileconf/main.py
+++ b/pyfileconf/main.py
@@ -42,7 +42,7 @@ from pyfileconf.pipelines.models.dictfile import PipelineDictFile
 from pyfileconf.data.models.registrar import SpecificRegistrar
 from pyfileconf.data.models.dictfile import SpecificClassDictFile
 from pyfileconf.runner.models.runner import Runner, ResultOrResults
-from pyfileconf.imports.models.tracker import ImportTracker
+from pyfileconf.imports.models.tracker import ImportTracker, wipe_item_modules
 from pyfileconf.sectionpath.sectionpath import SectionPath
 from pyfileconf.exceptions.pipelinemanager import PipelineManagerNotLoadedException, \
     NoPipelineManagerForFilepathException, NoPipelineManagerForSectionPathException
@@ -583,6 +583,8 @@ class PipelineManager:
 
     def _wipe_loaded_modules(self):
         [sys.modules.pop(module, None) for module in self._loaded_modules]
+        if self._general_registrar is not None:
+            wipe_item_modules(_get_modules_of_items(self._general_registrar.collection))
 
     def _convert_list_or_single_item_view_or_str_to_strs(self, run_list: 'RunnerArgs') -> Union[str, List[str]]:
         if isinstance(run_list, list):
@@ -686,6 +688,15 @@ def _try_except_run_func_except_user_interrupts(try_func: Callable, except_func:
             except_result = except_func(e, **except_func_kwargs)
         return except_result, False
 
+def _get_modules_of_items(collection: PipelineCollection) -> List[Optional[str]]:
+    modules: List[Optional[str]] = []
+    for item in collection:
+        if isinstance(item, PipelineCollection):
+            modules.extend(_get_modules_of_items(item))
+        elif isinstance(item, ObjectView):
+            modules.extend(item.loaded_from_modules)
+    return modules
+
 def _return_with_traceback(any: Any) -> Tuple[Any, str]:
     return any, traceback.format_exc()
 
diff --git a/pyfileconf/views/object.py b/pyfileconf/views/object.py
index 2d1e1b7..a5b152a 100644
--- a/pyfileconf/views/object.py
+++ b/pyfileconf/views/object.py
@@ -1,4 +1,5 @@
 import ast
+from typing import List, Optional
 
 from mixins.propertycache import SimplePropertyCacheMixin
 from pyfileconf.imports.models.statements.interfaces import (
@@ -7,6 +8,7 @@ from pyfileconf.imports.models.statements.interfaces import (
     ModuleImportStatement
 )
 from pyfileconf.imports.models.statements.container import ImportStatementContainer
+from pyfileconf.imports.models.tracker import ImportTracker, track_item_modules
 from pyfileconf.io.file.load.parsers.extname import extract_external_name_from_assign_value
 from pyfileconf.io.file.load.parsers.kwargs import extract_keywords_from_ast_by_name
 from pyfileconf.io.func.load.config import FunctionConfigExtractor
@@ -24,10 +26,28 @@ class ObjectView(SimplePropertyCacheMixin, ReprMixin):
     def load(self):
         # executes import
         if self.import_statement is not None:
-            self._item = _execute_import_get_obj_from_result(self.import_statement, self.name)
+            tracker = ImportTracker()
+            try:
+                self._item = _execute_import_get_obj_from_result(self.import_statement, self.name)
+            finally:
+                track_item_modules(tracker.imported_modules, self.loaded_from_modules)
 
         return self._item
 
+    @property
+    def loaded_from_modules(self) -> List[Optional[str]]:
+        """
+        The modules from which the item is imported and, if it was already loaded, in which it is defined
+        """
+        modules: List[Optional[str]] = []
+        if isinstance(self.import_statement, ObjectImportStatement):
+            modules.append(self.import_statement.module)
+        elif isinstance(self.import_statement, ModuleImportStatement):
+            modules.extend(self.import_statement.modules)
+        if '_item' in self.__dict__:
+            modules.append(getattr(self._item, '__module__', None))
+        return modules
+
     @property
     def default_config(self):
         return self._try_getattr_else_call_func('_default_config', self._get_default_config)
-- 
2.43.0


From 4a94c10c1ebfdf0f9585ab804e2cbcfe7439e263 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:58 +0000
Subject: [PATCH 13/43] fix: scaffolding config files keeps everything the user
 wrote and leaves complete files alone

---
 pyfileconf/data/models/collection.py          |  15 +-
 .../imports/models/statements/container.py    |  20 ++-
 pyfileconf/io/file/interfaces/config.py       |  11 +-
 pyfileconf/io/file/load/lazy/config.py        |  24 +--
 pyfileconf/io/file/load/parsers/assign.py     |   6 +
 pyfileconf/io/file/load/parsers/imp.py        |   6 +
 pyfileconf/io/file/write/config.py            | 151 +++++++++++++++++-
 7 files changed, 182 insertions(+), 51 deletions(-)

diff --git a/pyfileconf/data/models/collection.py b/pyfileconf/data/models/collection.py
index 2565e27..49064fd 100644
--- a/pyfileconf/data/models/collection.py
+++ b/pyfileconf/data/models/collection.py
@@ -67,20 +67,7 @@ class SpecificClassCollection(Collection):
             always_assign_strs=self.always_assign_strs
         )
 
-        if os.path.exists(item_filepath):
-            # if config file already exists, load confguration from file, use to update file defaults
-            existing_config = SpecificClassConfig.from_file(
-                item_filepath,
-                name=item_name,
-                **class_config,  # type: ignore
-            )
-            existing_imports = existing_config._file.interface.imports
-        else:
-            existing_imports = None
-
-        item_config = SpecificClassConfig(imports=existing_imports,
-                                                   file_path=item_filepath,
-                                                   **class_config)  # type: ignore
+        item_config = SpecificClassConfig(file_path=item_filepath, **class_config)  # type: ignore
 
         # Get config by extracting from class __init__
         # First need to create dummy import for compatibility
diff --git a/pyfileconf/imports/models/statements/container.py b/pyfileconf/imports/models/statements/container.py
index df82740..365229a 100644
--- a/pyfileconf/imports/models/statements/container.py
+++ b/pyfileconf/imports/models/statements/container.py
@@ -37,18 +37,14 @@ class ImportStatementContainer(Container, ReprMixin):
             # e.g. item is: import this
             # and import statement in collection is: import this, that
             if isinstance(item, ModuleImportStatement) and isinstance(imp_or_comment, ModuleImportStatement):
-                matching_modules = all(mod in imp_or_comment.modules for mod in item.modules)
-                matching_renames = all(rename in imp_or_comment.renames for rename in item.renames)
-                if matching_modules and matching_renames:
+                if _imports_are_in(item.modules, item, imp_or_comment.modules, imp_or_comment):
                     return True
 
             # e.g. item is: from this import that
             # and import statement in collection is: from this import that, another
             if isinstance(item, ObjectImportStatement) and isinstance(imp_or_comment, ObjectImportStatement):
                 matching_module = imp_or_comment.module == item.module
-                matching_objs = all(mod in imp_or_comment.objs for mod in item.objs)
-                matching_renames = all(rename in imp_or_comment.renames for rename in item.renames)
-                if matching_module and matching_objs and matching_renames:
+                if matching_module and _imports_are_in(item.objs, item, imp_or_comment.objs, imp_or_comment):
                     return True
 
 
@@ -186,3 +182,15 @@ class ImportStatementContainer(Container, ReprMixin):
     #
     #     return renames
 
+
+def _imports_are_in(names: List[str], imp, other_names: List[str], other_imp) -> bool:
+    """
+    Whether everything in one import is in the other, under the same name
+    """
+    if any(rename not in other_imp.renames for rename in imp.renames):
+        return False
+    return all(
+        name in other_names and (name in imp.renames or name not in other_imp.renames or
+                                 other_names.count(name) > other_imp.renames.orig_names.count(name))
+        for name in names
+    )
diff --git a/pyfileconf/io/file/interfaces/config.py b/pyfileconf/io/file/interfaces/config.py
index d1f9a11..d74238f 100644
--- a/pyfileconf/io/file/interfaces/config.py
+++ b/pyfileconf/io/file/interfaces/config.py
@@ -1,3 +1,4 @@
+import os
 from typing import TYPE_CHECKING
 if TYPE_CHECKING:
     from pyfileconf.basemodels.config import ConfigBase
@@ -12,8 +13,12 @@ class ConfigFileInterface(ConfigFileLoader):
         file_str_obj = ConfigFileStr(
             config,
             existing_assigns=self.assigns,
-            existing_imports=self.imports,
-            existing_body=self.assignment_body
+            existing_body=self.body or [],
+            existing_ast=self.ast
         )
 
-        write_file_atomically(self.filepath, file_str_obj.file_str, newline='\n', encoding='utf8')
\ No newline at end of file
+        if self.body is not None and file_str_obj.file_str == ''.join(self.body) and os.path.exists(self.filepath):
+            # Nothing is missing, leave the file as it is
+            return
+
+        write_file_atomically(self.filepath, file_str_obj.file_str, newline='\n', encoding='utf8')
diff --git a/pyfileconf/io/file/load/lazy/config.py b/pyfileconf/io/file/load/lazy/config.py
index ec486f6..fa78900 100644
--- a/pyfileconf/io/file/load/lazy/config.py
+++ b/pyfileconf/io/file/load/lazy/config.py
@@ -1,7 +1,6 @@
-from typing import List, Tuple
+from typing import Tuple
 
 from pyfileconf.io.file.load.lazy.base.impassign import ImportAssignmentLazyLoader
-from pyfileconf.config.logic.load import _split_lines_into_import_and_assignment
 from pyfileconf.pmcontext.actions import PyfileconfActions
 from pyfileconf.pmcontext.tracing import StackTracker
 
@@ -13,28 +12,7 @@ class ConfigFileLoader(ImportAssignmentLazyLoader):
         super().register()
 
         with StackTracker(file_path=self.filepath, action=PyfileconfActions.LOAD_FILE_AST):
-            # Extract assignment portion of body
-            self._file_body_to_assignment_body()
-
             # Parse assigns into config dict
             config_dict, annotation_dict = self.assigns.to_default_dict_and_annotation_dict()
 
         return config_dict, annotation_dict
-
-    @property
-    def assignment_body(self) -> List[str]:
-        return self._try_getattr_else_call_func('_assignment_body', self.load)
-
-    def _file_body_to_assignment_body(self):
-        """
-        Warning: Assumes that imports come first, then an assignment section. May have
-        issues when imports come later
-        Returns:
-
-        """
-        if self.body is not None:
-            import_lines, assignment_lines = _split_lines_into_import_and_assignment(self.body)
-            self._assignment_body = assignment_lines
-        else:
-            self._assignment_body = []
-
diff --git a/pyfileconf/io/file/load/parsers/assign.py b/pyfileconf/io/file/load/parsers/assign.py
index 995d52c..5bec761 100644
--- a/pyfileconf/io/file/load/parsers/assign.py
+++ b/pyfileconf/io/file/load/parsers/assign.py
@@ -24,6 +24,12 @@ class AssignmentExtractor(ast.NodeVisitor):
             AssignmentStatement.from_ast_assign(node)
         )
 
+    def visit_FunctionDef(self, node):
+        # Variables in functions are not variables of the file
+        pass
+
+    visit_AsyncFunctionDef = visit_ClassDef = visit_FunctionDef
+
 
 def extract_assignments_from_ast(module: ast.Module) -> 'AssignmentStatementContainer':
     ae = AssignmentExtractor()
diff --git a/pyfileconf/io/file/load/parsers/imp.py b/pyfileconf/io/file/load/parsers/imp.py
index d9fcb79..ed9eaea 100644
--- a/pyfileconf/io/file/load/parsers/imp.py
+++ b/pyfileconf/io/file/load/parsers/imp.py
@@ -28,6 +28,12 @@ class ImportExtractor(ast.NodeVisitor):
             ObjectImportStatement.from_ast_import_from(node)
         )
 
+    def visit_FunctionDef(self, node):
+        # Imports in functions are not imports of the file
+        pass
+
+    visit_AsyncFunctionDef = visit_ClassDef = visit_FunctionDef
+
 def extract_imports_from_ast(module: ast.Module) -> ImportStatementContainer:
     ie = ImportExtractor()
     ie.visit(module)
diff --git a/pyfileconf/io/file/write/config.py b/pyfileconf/io/file/write/config.py
index 4859e1d..d634441 100644
--- a/pyfileconf/io/file/write/config.py
+++ b/pyfileconf/io/file/write/config.py
@@ -1,19 +1,160 @@
-from typing import List, TYPE_CHECKING
+import ast
+import re
+from typing import List, Optional, Tuple, TYPE_CHECKING
 if TYPE_CHECKING:
     from pyfileconf.basemodels.config import ConfigBase
 
+from pyfileconf.io.file.load.parsers.extname import extract_unique_external_names_from_assign_value
+from pyfileconf.io.file.load.parsers.imp import ImportExtractor
 from pyfileconf.io.file.write.base import FileStr
 
 from pyfileconf.imports.models.statements.container import ImportStatementContainer
 from pyfileconf.assignments.models.container import AssignmentStatementContainer
 
 class ConfigFileStr(FileStr):
+    """
+    Adds the missing imports and assignments, and keeps everything else exactly as it is in the existing file.
+    """
 
-    def __init__(self, config: 'ConfigBase', existing_imports: ImportStatementContainer,
-                 existing_assigns: AssignmentStatementContainer, existing_body: List[str]):
+    def __init__(self, config: 'ConfigBase', existing_assigns: AssignmentStatementContainer,
+                 existing_body: List[str], existing_ast: Optional[ast.Module]):
+        """
+
+        Args:
+            config:
+            existing_assigns:
+            existing_body: all the lines of the existing file
+            existing_ast: all the contents of the existing file
+        """
+        self.existing_lines = [line if line.endswith('\n') else line + '\n' for line in existing_body]
+        self.existing_statements = existing_ast.body if existing_ast is not None else []
         super().__init__(
             config,
-            existing_imports=existing_imports,
+            existing_imports=_extract_executed_imports(self.existing_statements),
             existing_assigns=existing_assigns,
             existing_body=existing_body
-        )
\ No newline at end of file
+        )
+
+    def _create_str(self, import_assignment_obj, existing_imports: ImportStatementContainer,
+                    existing_assigns: AssignmentStatementContainer, existing_body: List[str]) -> str:
+        if not any(line.strip() for line in existing_body):
+            # New or blank file
+            return super()._create_str(import_assignment_obj, existing_imports, existing_assigns, [])
+
+        all_imports, new_assigns_begin, new_assigns_end = self._combine_imports_get_new_assignments(
+            import_assignment_obj,
+            existing_imports=existing_imports,
+            existing_assigns=existing_assigns
+        )
+        new_imports = [imp for imp in all_imports if imp not in existing_imports]
+        if not new_imports and not new_assigns_begin.items and not new_assigns_end.items:
+            return ''.join(existing_body)
+
+        lines = self.existing_lines
+        imports_begin, imports_end, has_imports = self._get_import_positions()
+        assigns_begin = self._get_begin_assigns_position(new_assigns_begin, imports_end)
+
+        begin_import_lines = [f'{imp}\n' for imp in new_imports if imp.prefer_beginning]
+        end_import_lines = [f'{imp}\n' for imp in new_imports if not imp.prefer_beginning]
+        if new_imports and not has_imports:
+            end_import_lines.append('\n')
+        begin_assign_lines = [f'{str(assign).rstrip()}\n' for assign in new_assigns_begin]
+        if begin_assign_lines and assigns_begin > 0 and (has_imports or not new_imports):
+            begin_assign_lines.insert(0, '\n')
+
+        out_lines = [
+            *lines[:imports_begin],
+            *begin_import_lines,
+            *lines[imports_begin:imports_end],
+            *end_import_lines,
+            *lines[imports_end:assigns_begin],
+            *begin_assign_lines,
+            *lines[assigns_begin:],
+            str(new_assigns_end)
+        ]
+        return ''.join(out_lines)
+
+    def _get_import_positions(self) -> Tuple[int, int, bool]:
+        """
+        :return: index of the line before which begin imports go, index of the line before which
+            other imports go, and whether there are any imports there already
+        """
+        statements = list(self.existing_statements)
+        position = 0
+        if statements and _is_docstring(statements[0]):
+            position = _end_line(statements.pop(0))
+        while statements and _is_future_import(statements[0]):
+            position = _end_line(statements.pop(0))
+
+        begin: Optional[int] = None
+        for statement in statements:
+            if not isinstance(statement, (ast.Import, ast.ImportFrom)):
+                break
+            if begin is None:
+                # May be on the same line as the one before
+                begin = max(statement.lineno - 1, position)
+            position = _end_line(statement)
+
+        if begin is not None:
+            return begin, position, True
+
+        if position == 0:
+            position = self._get_end_of_header_comment()
+        return position, position, False
+
+    def _get_end_of_header_comment(self) -> int:
+        position = 0
+        for i, line in enumerate(self.existing_lines):
+            if not line.startswith('#'):
+                if line.strip() == '':
+                    # There is a separate comment at the beginning. Otherwise, it is about what comes next
+                    position = i
+                break
+            if line.startswith('#!') or (i < 2 and re.search(r'coding[=:]', line)):
+                position = i + 1
+        return position
+
+    def _get_begin_assigns_position(self, begin_assigns: AssignmentStatementContainer, imports_end: int) -> int:
+        """
+        The assignments come after the imports, even if what they use is imported later on
+        """
+        names = {
+            name for assign in begin_assigns for name in extract_unique_external_names_from_assign_value(assign.value)
+        }
+        position = imports_end
+        for statement in self.existing_statements:
+            if isinstance(statement, (ast.Import, ast.ImportFrom)):
+                imported_names = {(alias.asname or alias.name).split('.')[0] for alias in statement.names}
+                if imported_names & names:
+                    position = max(position, _end_line(statement))
+        return position
+
+
+class _ExecutedImportExtractor(ImportExtractor):
+
+    def visit_If(self, node):
+        test_names = {getattr(test, 'id', getattr(test, 'attr', None)) for test in ast.walk(node.test)}
+        if 'TYPE_CHECKING' in test_names:
+            # Is not imported when actually running
+            return
+        self.generic_visit(node)
+
+
+def _extract_executed_imports(statements: List[ast.stmt]) -> ImportStatementContainer:
+    ie = _ExecutedImportExtractor()
+    for statement in statements:
+        ie.visit(statement)
+    return ie.imports
+
+
+def _is_docstring(statement: ast.stmt) -> bool:
+    return isinstance(statement, ast.Expr) and isinstance(statement.value, ast.Constant) and \
+        isinstance(statement.value.value, str)
+
+
+def _is_future_import(statement: ast.stmt) -> bool:
+    return isinstance(statement, ast.ImportFrom) and statement.module == '__future__'
+
+
+def _end_line(statement: ast.stmt) -> int:
+    return statement.end_lineno  # type: ignore
-- 
2.43.0


From dce5d9ef787393f9a34efb8f47d946887b18d47a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:59 +0000
Subject: [PATCH 14/43] fix: scaffold defaults which use constants, and imports
 in the same order every time

---
 pyfileconf/io/func/load/extractimp.py | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/pyfileconf/io/func/load/extractimp.py b/pyfileconf/io/func/load/extractimp.py
index 2ebbcb3..4958610 100644
--- a/pyfileconf/io/func/load/extractimp.py
+++ b/pyfileconf/io/func/load/extractimp.py
@@ -2,6 +2,7 @@ from typing import List, cast
 import ast
 import warnings
 
+from pyfileconf.exceptions.imports import NoImportMatchingNameException
 from pyfileconf.io.func.load.config import function_args_as_arg_and_annotation_dict
 from pyfileconf.io.file.load.parsers.extname import extract_unique_external_names_from_assign_value
 from pyfileconf.imports.models.statements.container import ImportStatementContainer, ObjectImportStatement
@@ -16,7 +17,10 @@ def extract_import_statements_from_function_args_imports_and_assigns(args: ast.a
     defaults_dict, annotation_dict = function_args_as_arg_and_annotation_dict(args)
 
     # Extract external names. These are the root names (not attrs, the base of attrs) for anything that is not builtin
-    external_names = _unique_external_names_from_default_dict_and_annotation_dict(defaults_dict, annotation_dict)
+    # Sort so that the order of the imports is the same every time
+    external_names = sorted(
+        _unique_external_names_from_default_dict_and_annotation_dict(defaults_dict, annotation_dict)
+    )
 
     out_imports = ImportStatementContainer([])
 
@@ -29,9 +33,13 @@ def extract_import_statements_from_function_args_imports_and_assigns(args: ast.a
 
     # Handle names which are imported into this file
     for name in external_names:
-        import_or_none = imports.get_import_for_module_or_obj_name(name)
-        if import_or_none is not None:
-            out_imports.append(import_or_none)
+        if assigns.contains_varname(name):
+            continue
+        try:
+            out_imports.append(imports.get_import_for_module_or_obj_name(name))
+        except NoImportMatchingNameException:
+            # Neither assigned nor imported. It is builtin or defined in this module, or unknown
+            continue
 
     # Sanity check, did we find all the imports?
     n_external = len(external_names)
-- 
2.43.0


From caba2724656f6d60172e768fde4c14135a42851f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:39 +0000
Subject: [PATCH 15/43] fix: allow imports of multiple modules in config files

---
 pyfileconf/imports/models/statements/obj.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyfileconf/imports/models/statements/obj.py b/pyfileconf/imports/models/statements/obj.py
index aaf1846..d5e44b0 100644
--- a/pyfileconf/imports/models/statements/obj.py
+++ b/pyfileconf/imports/models/statements/obj.py
@@ -14,7 +14,8 @@ from pyfileconf.imports.logic.load.ext_importlib import get_filepath_from_module
 class ObjectImportStatement(ImportStatement, ReprMixin):
     rename_attr = 'objs'
     repr_cols = ['module', 'objs', 'renames', 'comment']
-    equal_attrs = ['module', 'objs', 'renames', 'comment']
+    # objs must come before module, so that comparing to a module import with multiple modules is simply not equal
+    equal_attrs = ['objs', 'module', 'renames', 'comment']
 
     def __init__(self, objs: List[str], module: str, renames: RenameStatementCollection = None, comment: Comment=None,
                  preferred_position: str = None):
-- 
2.43.0


From d4a645d1cf6b1abdcff252c6f657b8534906b05b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:39 +0000
Subject: [PATCH 16/43] fix: resetting an existing config with allow_create
 replaces it

---
 pyfileconf/config/models/manager.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyfileconf/config/models/manager.py b/pyfileconf/config/models/manager.py
index 331bf4e..84d0096 100644
--- a/pyfileconf/config/models/manager.py
+++ b/pyfileconf/config/models/manager.py
@@ -216,7 +216,7 @@ class ConfigManager(ReprMixin):
         would_update = self._determine_and_track_if_config_would_be_updated(current_config, section_path_str, value)
         # Replace the config even if it has the same values now, so that the updates
         # which were made to the current config are not applied again later
-        self._set_func_or_section_config(section_path_str, value=value, allow_create=allow_create)
+        self._set_func_or_section_config(section_path_str, value=value, allow_create=False)
         return value, would_update
 
     def _get_func_or_section_configs(self, section_path_str: str) -> Optional[ActiveFunctionConfig]:
-- 
2.43.0


From fff62b305ccae50c3005844b58739dfabcc11386 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:39 +0000
Subject: [PATCH 17/43] fix: creating works with sections nested in lists and
 is not applied twice

---
 pyfileconf/basemodels/registrar.py |  7 +++++++
 pyfileconf/dictfiles/modify.py     | 17 +++++++++++++++--
 pyfileconf/main.py                 |  3 ++-
 3 files changed, 24 insertions(+), 3 deletions(-)

diff --git a/pyfileconf/basemodels/registrar.py b/pyfileconf/basemodels/registrar.py
index 0cd2f03..a54ae7d 100644
--- a/pyfileconf/basemodels/registrar.py
+++ b/pyfileconf/basemodels/registrar.py
@@ -73,6 +73,13 @@ class Registrar(ReprMixin):
         # Goes into nested sections, until it pulls the final section or pipeline
         return _get_from_nested_obj_by_section_path(self, section_path)
 
+    def contains(self, section_path_str: str) -> bool:
+        try:
+            self.get(section_path_str)
+        except (AttributeError, KeyError):
+            return False
+        return True
+
     def set(self, section_path_str: str, value: Any):
         section_path = SectionPath(section_path_str)
 
diff --git a/pyfileconf/dictfiles/modify.py b/pyfileconf/dictfiles/modify.py
index 6bb6fdd..9deeeae 100644
--- a/pyfileconf/dictfiles/modify.py
+++ b/pyfileconf/dictfiles/modify.py
@@ -52,7 +52,14 @@ def add_item_into_nested_dict_at_section_path(nested_dict: dict, section_path: S
                 raise ValueError('trying to insert item into existing dictionary section, must be existing '
                                  'list section or non-existent section')
 
-            last_container.append(new_entry)
+            if not any(_is_same_entry(entry, new_entry) for entry in last_container):
+                last_container.append(new_entry)
+
+
+def _is_same_entry(entry, other_entry) -> bool:
+    if isinstance(entry, ast.Name) and isinstance(other_entry, ast.Name):
+        return entry.id == other_entry.id
+    return entry == other_entry
 
 
 def create_dict_assignment_str_from_nested_dict_with_ast_names(nested_dict: dict, existing_str: Optional[str] = None,
@@ -71,7 +78,13 @@ def create_dict_assignment_str_from_nested_dict_with_ast_names(nested_dict: dict
         elif isinstance(value, list):
             use_str += '['
             for item in value:
-                use_str += item.id + ','
+                if isinstance(item, dict):
+                    # Nested section within the list
+                    use_str += '{'
+                    use_str += create_dict_assignment_str_from_nested_dict_with_ast_names(item, use_str)
+                    use_str += '},'
+                else:
+                    use_str += item.id + ','
             use_str += '],'
         elif isinstance(value, dict):
             use_str += '{'
diff --git a/pyfileconf/main.py b/pyfileconf/main.py
index 5e375e1..5d9b76f 100644
--- a/pyfileconf/main.py
+++ b/pyfileconf/main.py
@@ -459,7 +459,8 @@ class PipelineManager:
             set_section_path_str = section_path_str
             scaffold_path_str = full_sp.path_str
 
-        registrar.set(set_section_path_str, registrar_obj)
+        if not registrar.contains(scaffold_path_str):
+            registrar.set(set_section_path_str, registrar_obj)
         registrar.scaffold_config_for(scaffold_path_str)
         self.reset(full_sp.path_str, allow_create=True)
         logger.debug(f'Finished creating config for {section_path_str}')
-- 
2.43.0


From 34cd40d51fd462fd95e93068415d83fd4518841d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:23 +0000
Subject: [PATCH 18/43] fix: section values still apply after an item is reset

---
 pyfileconf/config/models/manager.py | 29 +++++++++++++++++++++--------
 1 file changed, 21 insertions(+), 8 deletions(-)

diff --git a/pyfileconf/config/models/manager.py b/pyfileconf/config/models/manager.py
index 84d0096..29f9d58 100644
--- a/pyfileconf/config/models/manager.py
+++ b/pyfileconf/config/models/manager.py
@@ -106,6 +106,9 @@ class ConfigManager(ReprMixin):
 
         """
         default = self._get_default_func_or_section_config(section_path_str, create=allow_create)
+        if section_path_str is not None and self._has_config(section_path_str):
+            # The values of the sections must still apply after resetting
+            self._override_with_section_and_local_configs(default, section_path_str)
         new_config, updated = self.set(section_path_str, default, allow_create=allow_create)
         return new_config, updated
 
@@ -146,6 +149,12 @@ class ConfigManager(ReprMixin):
         if self.section is None:
             raise ConfigManagerNotLoadedException('call .load() on ConfigManager before .get()')
 
+        if config:
+            self._override_with_section_and_local_configs(config, section_path_str)
+
+        return config
+
+    def _override_with_section_and_local_configs(self, config: ConfigBase, section_path_str: str) -> None:
         # First override for function defaults is global project config
         section_configs = [self.section.config]
 
@@ -167,15 +176,12 @@ class ConfigManager(ReprMixin):
             # if is a section, not function/pipeline
             section_configs.append(self._get_func_or_section_configs(full_section))
 
-        if config:
-            # Override configs. Default config is base config, then gets updated by project, then high
-            # level sections to low level sections
-            [config.update(section_config) for section_config in section_configs]
+        # Override configs. Default config is base config, then gets updated by project, then high
+        # level sections to low level sections
+        [config.update(section_config) for section_config in section_configs]
 
-            # Last, override with local config
-            config.update(self.local_config)
-
-        return config
+        # Last, override with local config
+        config.update(self.local_config)
 
     def set(self, section_path_str: Optional[str] = None, value: Optional[ConfigBase] = None,
             allow_create: bool = True) -> Tuple[ConfigBase, bool]:
@@ -309,6 +315,13 @@ class ConfigManager(ReprMixin):
                 raise ValueError(f'expected section path to return ConfigSection or FunctionConfig, '
                                  f'got {config_obj} of type {type(config_obj)}')
 
+    def _has_config(self, section_path_str: str) -> bool:
+        try:
+            _get_from_nested_obj_by_section_path(self, SectionPath(section_path_str))
+        except KeyError:
+            return False
+        return True
+
     def _is_function_or_pipeline_path(self, section_path_str: str) -> bool:
         section_path = SectionPath(section_path_str)
         # Goes into nested sections, until it pulls the final config or section
-- 
2.43.0


From cd868be725a43d9b5be4df363f1af47437f50d44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:53 +0000
Subject: [PATCH 19/43] fix: a section may contain a section or item of its own
 name

---
 pyfileconf/config/models/section.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyfileconf/config/models/section.py b/pyfileconf/config/models/section.py
index ac4d977..6b16037 100644
--- a/pyfileconf/config/models/section.py
+++ b/pyfileconf/config/models/section.py
@@ -22,8 +22,8 @@ class ConfigSection(Container, ReprMixin):
 
     def __getattr__(self, item):
 
-        # Handle if trying to get this section's config
-        if self.config is not None and item == self.config.name:
+        # Handle if trying to get this section's config. Something inside this section may have the same name
+        if self.config is not None and item == self.config.name and item not in self.config_map:
             return self.config
 
         return self.config_map[item]
-- 
2.43.0


From cec6775a8a26d5bf26ae5f1f56cb7d23f96fdda6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:18:15 +0000
Subject: [PATCH 20/43] fix: report the error when a config folder cannot be
 listed

---
 pyfileconf/config/models/section.py | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/pyfileconf/config/models/section.py b/pyfileconf/config/models/section.py
index 6b16037..c860c2a 100644
--- a/pyfileconf/config/models/section.py
+++ b/pyfileconf/config/models/section.py
@@ -1,4 +1,4 @@
-from typing import List, Union
+from typing import List, Tuple, Union
 import os
 import warnings
 
@@ -78,11 +78,12 @@ class ConfigSection(Container, ReprMixin):
         if not os.path.exists(basepath):
             return cls([], name=name)
 
-        config_file_list = [file for file in next(os.walk(basepath))[2] if file.endswith('.py')]
+        folders, files = _get_folder_and_file_names(basepath)
+        config_file_list = [file for file in files if file.endswith('.py')]
 
         # Ignore folders starting with . or _
         config_section_list = [
-            folder for folder in next(os.walk(basepath))[1] if not any(
+            folder for folder in folders if not any(
                 [folder.startswith(item) for item in ('_','.')]
             )
         ]
@@ -108,3 +109,14 @@ class ConfigSection(Container, ReprMixin):
 
         return cls(configs, section_config=section_config, name=name)
 
+
+def _get_folder_and_file_names(basepath: str) -> Tuple[List[str], List[str]]:
+    folders: List[str] = []
+    files: List[str] = []
+    with os.scandir(basepath) as entries:
+        for entry in entries:
+            if entry.is_dir():
+                folders.append(entry.name)
+            else:
+                files.append(entry.name)
+    return folders, files
-- 
2.43.0


From f7c4342b725c90cfc1cfb8840c1bab02a1c8199c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:18:29 +0000
Subject: [PATCH 21/43] fix: do not ignore a section config which raises a
 ValueError

---
 pyfileconf/config/models/section.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyfileconf/config/models/section.py b/pyfileconf/config/models/section.py
index c860c2a..b09e56d 100644
--- a/pyfileconf/config/models/section.py
+++ b/pyfileconf/config/models/section.py
@@ -89,10 +89,10 @@ class ConfigSection(Container, ReprMixin):
         ]
 
         # Special handling for section config
-        try:
+        if 'section.py' in config_file_list:
             config_file_list.remove('section.py')
             section_config = ActiveFunctionConfig.from_file(os.path.join(basepath, 'section.py'), name=name)
-        except ValueError:
+        else:
             # Didn't find section config
             section_config = None
 
-- 
2.43.0


From 33ebcbabe889f9dcdc0ecfc8c055f7760c4ae060 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:12 +0000
Subject: [PATCH 22/43] fix: do not fail when a config which depended on the
 updated one is gone

---
 pyfileconf/config/models/manager.py | 24 ++++++++++++++++++------
 1 file changed, 18 insertions(+), 6 deletions(-)

diff --git a/pyfileconf/config/models/manager.py b/pyfileconf/config/models/manager.py
index 29f9d58..b5d1c4f 100644
--- a/pyfileconf/config/models/manager.py
+++ b/pyfileconf/config/models/manager.py
@@ -9,6 +9,8 @@ from mixins.repr import ReprMixin
 from pyfileconf.basemodels.config import ConfigBase
 from pyfileconf.config.models.file import ActiveFunctionConfigFile
 from pyfileconf.exceptions.config import ConfigManagerNotLoadedException, CannotResolveConfigDependenciesException
+from pyfileconf.exceptions.pipelinemanager import NoPipelineManagerForSectionPathException, \
+    PipelineManagerNotLoadedException
 from pyfileconf.logic.get import _get_from_nested_obj_by_section_path
 from pyfileconf.logic.set import _set_in_nested_obj_by_section_path
 from pyfileconf.config.models.interfaces import ConfigSectionOrConfig
@@ -106,7 +108,7 @@ class ConfigManager(ReprMixin):
 
         """
         default = self._get_default_func_or_section_config(section_path_str, create=allow_create)
-        if section_path_str is not None and self._has_config(section_path_str):
+        if section_path_str is not None and self.has_config(section_path_str):
             # The values of the sections must still apply after resetting
             self._override_with_section_and_local_configs(default, section_path_str)
         new_config, updated = self.set(section_path_str, default, allow_create=allow_create)
@@ -315,7 +317,7 @@ class ConfigManager(ReprMixin):
                 raise ValueError(f'expected section path to return ConfigSection or FunctionConfig, '
                                  f'got {config_obj} of type {type(config_obj)}')
 
-    def _has_config(self, section_path_str: str) -> bool:
+    def has_config(self, section_path_str: str) -> bool:
         try:
             _get_from_nested_obj_by_section_path(self, SectionPath(section_path_str))
         except KeyError:
@@ -391,9 +393,19 @@ def _get_config_from_config_or_section(config_or_section: ConfigSectionOrConfig)
 
 
 def _refresh_configs(section_paths: Iterable[SectionPath]):
-    from pyfileconf import PipelineManager
-
     for sp in section_paths:
-        manager = PipelineManager.get_manager_by_section_path_str(sp.path_str)
+        config_manager = _get_config_manager_if_exists(sp)
         relative_section_path = SectionPath('.'.join(sp[1:]))
-        manager.refresh(relative_section_path.path_str)
\ No newline at end of file
+        if config_manager is None or not config_manager.has_config(relative_section_path.path_str):
+            # Was removed or its manager was replaced, nothing to refresh
+            continue
+        config_manager.pipeline_manager.refresh(relative_section_path.path_str)
+
+
+def _get_config_manager_if_exists(section_path: SectionPath) -> Optional[ConfigManager]:
+    from pyfileconf import PipelineManager
+
+    try:
+        return PipelineManager.get_manager_by_section_path_str(section_path.path_str).config
+    except (NoPipelineManagerForSectionPathException, PipelineManagerNotLoadedException):
+        return None
-- 
2.43.0


From f4eff2ac0ad9ad50a4dee03b08bfe5bde1dab674 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:52:14 +0000
Subject: [PATCH 23/43] fix: refresh what depends on a manager's items in other
 managers after reloading it

---
 pyfileconf/config/models/manager.py | 21 +++++++++++++++++++++
 pyfileconf/main.py                  |  2 ++
 2 files changed, 23 insertions(+)

diff --git a/pyfileconf/config/models/manager.py b/pyfileconf/config/models/manager.py
index b5d1c4f..b724df8 100644
--- a/pyfileconf/config/models/manager.py
+++ b/pyfileconf/config/models/manager.py
@@ -11,6 +11,7 @@ from pyfileconf.config.models.file import ActiveFunctionConfigFile
 from pyfileconf.exceptions.config import ConfigManagerNotLoadedException, CannotResolveConfigDependenciesException
 from pyfileconf.exceptions.pipelinemanager import NoPipelineManagerForSectionPathException, \
     PipelineManagerNotLoadedException
+from pyfileconf.logger.logger import logger
 from pyfileconf.logic.get import _get_from_nested_obj_by_section_path
 from pyfileconf.logic.set import _set_in_nested_obj_by_section_path
 from pyfileconf.config.models.interfaces import ConfigSectionOrConfig
@@ -98,6 +99,26 @@ class ConfigManager(ReprMixin):
                 raise CannotResolveConfigDependenciesException(update_deps)
             update_deps = new_update_deps
 
+    def refresh_dependent_configs_of_other_managers(self):
+        """
+        Everything in this manager may have changed, so refresh the configs in other managers which depend on it.
+        """
+        from pyfileconf import context
+        # Sorted by path so that the order does not depend on hashing
+        dependents = sorted({
+            dependent.path_str
+            for depends_on, all_dependents in context.force_update_dependencies.items()
+            if SectionPath(depends_on)[0] == self.pipeline_manager_name
+            for dependent in all_dependents
+            if dependent[0] != self.pipeline_manager_name
+        })
+        for dependent in dependents:
+            try:
+                _refresh_configs([SectionPath(dependent)])
+            except Exception:
+                # This manager is fine, the other one depends on something which is gone or no longer works
+                logger.exception(f'could not refresh {dependent}, which depends on {self.pipeline_manager_name}')
+
     def reset(self, section_path_str: str=None, allow_create: bool = False) -> Tuple[ConfigBase, bool]:
         """
         Resets a function or section config to default. If no section_path_str is passed, resets local config.
diff --git a/pyfileconf/main.py b/pyfileconf/main.py
index 5d9b76f..499c803 100644
--- a/pyfileconf/main.py
+++ b/pyfileconf/main.py
@@ -322,6 +322,8 @@ class PipelineManager:
             raise e
 
         self._loaded_modules = self._import_tracker.imported_modules
+        if context.active_managers.get(self.name) is self:
+            self.config.refresh_dependent_configs_of_other_managers()
         logger.debug(f'Finished running load for {self.name}')
 
     def update(self, d_: dict=None, section_path_str: str=None, pyfileconf_persist: bool = True, **kwargs):
-- 
2.43.0


From 7f11ec2a50247310f99195a6fb4dcfec05068248 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:56:55 +0000
Subject: [PATCH 24/43] fix: creating a section inside a section of its own
 name

---
 pyfileconf/config/models/manager.py | 4 ++++
 pyfileconf/config/models/section.py | 5 -----
 2 files changed, 4 insertions(+), 5 deletions(-)

diff --git a/pyfileconf/config/models/manager.py b/pyfileconf/config/models/manager.py
index b724df8..d43082f 100644
--- a/pyfileconf/config/models/manager.py
+++ b/pyfileconf/config/models/manager.py
@@ -30,6 +30,10 @@ class ConfigManager(ReprMixin):
         self.local_config = ActiveFunctionConfig()
 
     def __getattr__(self, item):
+        # Handle if trying to get the config of the whole project, unless there is a section of that name
+        if item == self.section.name and item not in self.section.config_map and self.section.config is not None:
+            return self.section.config
+
         return getattr(self.section, item)
 
     def __dir__(self):
diff --git a/pyfileconf/config/models/section.py b/pyfileconf/config/models/section.py
index b09e56d..2668876 100644
--- a/pyfileconf/config/models/section.py
+++ b/pyfileconf/config/models/section.py
@@ -21,11 +21,6 @@ class ConfigSection(Container, ReprMixin):
         self.name = name
 
     def __getattr__(self, item):
-
-        # Handle if trying to get this section's config. Something inside this section may have the same name
-        if self.config is not None and item == self.config.name and item not in self.config_map:
-            return self.config
-
         return self.config_map[item]
 
     def __dir__(self):
-- 
2.43.0


From 815ccbbe305e18355c005c9da3979ad784b46416 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:03:40 +0000
Subject: [PATCH 25/43] fix: record the dependency on an item which was already
 loaded

---
 pyfileconf/runner/models/runner.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyfileconf/runner/models/runner.py b/pyfileconf/runner/models/runner.py
index 0cba6ef..2677464 100644
--- a/pyfileconf/runner/models/runner.py
+++ b/pyfileconf/runner/models/runner.py
@@ -295,6 +295,7 @@ class Runner(ReprMixin):
 
     def _get_one_func_with_config(self, section_path_str: str) -> Callable:
         if section_path_str in self._loaded_objects:
+            self._add_to_config_dependencies_if_necessary(section_path_str)
             return self._loaded_objects[section_path_str]
 
         func, config_dict = self._get_func_and_config(section_path_str)
@@ -308,6 +309,7 @@ class Runner(ReprMixin):
 
     def _get_one_obj_with_config(self, section_path_str: str) -> Any:
         if section_path_str in self._loaded_objects:
+            self._add_to_config_dependencies_if_necessary(section_path_str)
             return self._loaded_objects[section_path_str]
 
         obj = self._get_func_or_collection(section_path_str)
-- 
2.43.0


From 03c0652f6e71a6137eeaf0cf6a4ad1a91d0b2b5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:25:13 +0000
Subject: [PATCH 26/43] fix: assigning to an option sets its value instead of
 replacing the option

---
 pyfileconf/opts/__init__.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/pyfileconf/opts/__init__.py b/pyfileconf/opts/__init__.py
index 0361b70..ad5a0c5 100644
--- a/pyfileconf/opts/__init__.py
+++ b/pyfileconf/opts/__init__.py
@@ -163,6 +163,14 @@ class PyfileconfOptionsManager:
             setattr(self, attr, opt)
             self._options.append(opt)
 
+    def __setattr__(self, key, value):
+        existing = self.__dict__.get(key)
+        if isinstance(existing, PyfileconfOption) and not isinstance(value, PyfileconfOption):
+            # Assigning to an option sets the value of the option rather than replacing the option
+            existing.value = value
+        else:
+            super().__setattr__(key, value)
+
     def __repr__(self):
         opts_str = '\t' + '\n\t'.join(repr(opt) for opt in self._options) + '\n'
         return f'<PyfileconfOptionsManager(options=[\n{opts_str}])>'
-- 
2.43.0


From 10fccd7596186c1a1a9ea17ead05239b580acc6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:32:15 +0000
Subject: [PATCH 27/43] fix: a log file which cannot be closed does not prevent
 changing or resetting options

---
 pyfileconf/logger/logger.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/pyfileconf/logger/logger.py b/pyfileconf/logger/logger.py
index 84e3d06..a7d3638 100644
--- a/pyfileconf/logger/logger.py
+++ b/pyfileconf/logger/logger.py
@@ -49,8 +49,8 @@ def add_file_handler():
     fh.setFormatter(CustomFormatter())
     # Only now that the new handler is known to work, stop using the previous one if there was one
     remove_file_handler()
-    _file_handler = fh
     logger.addHandler(fh)
+    _file_handler = fh
 
 
 def remove_file_handler():
@@ -62,4 +62,9 @@ def remove_file_handler():
     handler = _file_handler
     _file_handler = None
     logger.removeHandler(handler)
-    handler.close()
+    try:
+        handler.close()
+    except (OSError, ValueError) as e:  # ValueError: already closed after a failed rollover
+        # Each record was already written when it was logged, and the file is not used any more, so that
+        # must not prevent the options from being changed
+        logger.warning(f'Could not close log file {handler.baseFilename}: {e}')
-- 
2.43.0


From d36907093f8bac38ca7515ac1502eae9f1bb32b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:51:26 +0000
Subject: [PATCH 28/43] fix: iterations with cases for different items, or
 without cases, as plugins may make them

---
 pyfileconf/iterate.py | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/pyfileconf/iterate.py b/pyfileconf/iterate.py
index 2fcd6f4..6724f45 100644
--- a/pyfileconf/iterate.py
+++ b/pyfileconf/iterate.py
@@ -71,12 +71,13 @@ class IterativeRunner:
 
         if not hasattr(self, 'cases'):
             raise ValueError('must set cases before calling get_defaults')
-        case = self.cases[0]
-        section_path_strs = [
-            self._get_full_section_path_str(conf['section_path_str']) for conf in case
-        ]
+        # Plugins may have modified the cases, so there may be none, and they may not all be for the same sections
+        self._touched = {
+            self._get_full_section_path_str(conf['section_path_str']): conf['section_path_str']
+            for case in self.cases for conf in case
+        }
         defaults: Dict[str, Dict[str, Any]] = {}
-        for sp_str in section_path_strs:
+        for sp_str in self._touched:
             pm = PipelineManager.get_manager_by_section_path_str(sp_str)
             sp = SectionPath(sp_str)
             relative_section_path_str = SectionPath(".".join(sp[1:])).path_str
@@ -88,11 +89,16 @@ class IterativeRunner:
 
     def _fill_case_with_defaults(self, case: Tuple[Dict[str, Any], ...]) -> Tuple[Dict[str, Any], ...]:
         new_confs: List[Dict[str, Any]] = []
+        remaining = dict(self._touched)
         for conf in case:
             sp_str = self._get_full_section_path_str(conf['section_path_str'])
+            remaining.pop(sp_str, None)
             defaults = self.defaults[sp_str]
             new_conf = {**defaults, **conf}
             new_confs.append(new_conf)
+        for sp_str, section_path_str in remaining.items():
+            # Only other cases are for this section
+            new_confs.append({**self.defaults[sp_str], 'section_path_str': section_path_str})
         return tuple(new_confs)
 
     def _get_full_section_path_str(self, section_path_str: str) -> str:
-- 
2.43.0


From 6eb93df5940bd257592fe028a3c82453a507dbd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:01:44 +0000
Subject: [PATCH 29/43] fix: run everything which pre-run plugins add, also
 lists, views and what they change in place

---
 pyfileconf/main.py | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/pyfileconf/main.py b/pyfileconf/main.py
index 499c803..578e647 100644
--- a/pyfileconf/main.py
+++ b/pyfileconf/main.py
@@ -26,7 +26,7 @@ from pyfileconf.imports.models.statements.obj import ObjectImportStatement
 from pyfileconf.io.file.write.atomic import write_file_atomically
 from pyfileconf.iterate import IterativeRunner
 from pyfileconf.logger.logger import logger
-from pyfileconf.logic.combine import \
+from pyfileconf.logic.combine import combine_items_into_list_whether_they_are_lists_or_not, \
     combine_items_into_list_whether_they_are_lists_or_not_then_extract_from_list_if_only_one_item
 from pyfileconf.pipelines.models.collection import PipelineCollection
 from pyfileconf.pipelines.models.dictconfig import PipelineDictConfig
@@ -143,12 +143,19 @@ class PipelineManager:
         Returns: result or list of results
 
         """
+        additional_items_lol = plugin_manager.plm.hook.pyfileconf_pre_run(
+            section_path_str_or_list=section_path_str_or_list, pm=self
+        )
+        # Convert only now, as the plugins may have modified a passed list in place. Each plugin
+        # can return anything which can be passed to run
         str_or_list_only: Union[str, List[str]] = self._convert_list_or_single_item_view_or_str_to_strs(
             section_path_str_or_list
         )
-        additional_items = plugin_manager.plm.hook.pyfileconf_pre_run(
-            section_path_str_or_list=section_path_str_or_list, pm=self
-        )
+        additional_items: List[str] = []
+        for items in additional_items_lol:
+            additional_items = combine_items_into_list_whether_they_are_lists_or_not(
+                additional_items, self._convert_list_or_single_item_view_or_str_to_strs(items)
+            )
         # Will be converted into list always
         str_or_list_only = combine_items_into_list_whether_they_are_lists_or_not_then_extract_from_list_if_only_one_item(
             str_or_list_only, additional_items
-- 
2.43.0


From 3e9c1ed4dc32401840ce673afbce947e09314b24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:02:08 +0000
Subject: [PATCH 30/43] fix: call post-run plugins once for a whole run also
 with force_continue

---
 pyfileconf/main.py                 | 18 +++++++++---------
 pyfileconf/runner/models/runner.py | 20 +++++++++++++++++++-
 2 files changed, 28 insertions(+), 10 deletions(-)

diff --git a/pyfileconf/main.py b/pyfileconf/main.py
index 578e647..05819a8 100644
--- a/pyfileconf/main.py
+++ b/pyfileconf/main.py
@@ -244,7 +244,8 @@ class PipelineManager:
                 self.runner.run,
                 except_func=_return_with_traceback,
                 try_func_kwargs=dict(
-                    section_path_str_or_list=section_path_str
+                    section_path_str_or_list=section_path_str,
+                    call_post_run=False,
                 ),
                 print_traceback=False
             )
@@ -261,14 +262,13 @@ class PipelineManager:
                 logger.error(re)
         report_runner_exceptions(exceptions)
 
-        if strip_list_at_end:
-            if len(results) == 0:
-                return []
-            elif len(results) > 1:
-                raise ValueError('should not have multiple results')
-            return results[0]
-        else:
-            return results
+        if strip_list_at_end and len(results) > 1:
+            raise ValueError('should not have multiple results')
+
+        # The plugins are called once for the whole run, with the results of everything that succeeded
+        if strip_list_at_end and len(results) == 1:
+            return self.runner.call_post_run(results[0], multiple_results=False)
+        return self.runner.call_post_run(results, multiple_results=True)
 
     # TODO [#13]: multiple section path strs
     def get(self, section_path_str_or_view: 'StrOrView'):
diff --git a/pyfileconf/runner/models/runner.py b/pyfileconf/runner/models/runner.py
index 2677464..861a60a 100644
--- a/pyfileconf/runner/models/runner.py
+++ b/pyfileconf/runner/models/runner.py
@@ -83,7 +83,7 @@ class Runner(ReprMixin):
     #     return exposed_methods + pipeline_attrs
 
 
-    def run(self, section_path_str_or_list: StrOrListOfStrs) -> ResultOrResults:
+    def run(self, section_path_str_or_list: StrOrListOfStrs, call_post_run: bool = True) -> ResultOrResults:
         """
         Use to run registered pipelines/functions/sections. Pass a single section path or a list
         of section paths. If a list is passed, the return value will also be a list, with each
@@ -99,6 +99,8 @@ class Runner(ReprMixin):
                 or when running multiple functions/sections, e.g.
                     ['main.data', 'main.analysis.reg.1']
                 These sections/functions are based on the structure of your pipeline_dict
+            call_post_run: whether to call the post-run plugins. Pass False if this is only a part of
+                what was passed to PipelineManager.run
 
         Returns: result or list of results
 
@@ -113,6 +115,22 @@ class Runner(ReprMixin):
         else:
             raise ValueError('must pass str or list of strs of section paths to Runner.run')
 
+        if call_post_run:
+            return self.call_post_run(result, multiple_results)
+
+        return result
+
+    def call_post_run(self, result: ResultOrResults, multiple_results: bool) -> ResultOrResults:
+        """
+        Calls the post-run plugins
+
+        Args:
+            result:
+            multiple_results: whether result is a list with the result of each item which was run
+
+        Returns: result or list of results, including the additional results of the plugins
+
+        """
         additional_results = manager.plm.hook.pyfileconf_post_run(results=result, runner=self)
         if additional_results and multiple_results:
             result.extend(additional_results)
-- 
2.43.0


From 40bbba2056e39cd5f28e9d39bd089879d0a71786 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:48:47 +0000
Subject: [PATCH 31/43] fix: getting a section does not affect getting or
 running the classes in it

---
 pyfileconf/runner/models/runner.py | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/pyfileconf/runner/models/runner.py b/pyfileconf/runner/models/runner.py
index 861a60a..5d8bef8 100644
--- a/pyfileconf/runner/models/runner.py
+++ b/pyfileconf/runner/models/runner.py
@@ -42,6 +42,8 @@ class Runner(ReprMixin):
         self._all_specific_classes = tuple([registrar.klass for registrar in self._registrars])
         self._specific_class_registrar_map = {registrar.klass: registrar for registrar in self._registrars}
         self._loaded_objects: Dict[str, Any] = {}
+        # Classes in sections are loaded separately from the objects of those classes
+        self._loaded_section_classes: Dict[str, Any] = {}
 
     def __getattr__(self, item):
         # TODO [#15]: find a way to get __getattr__ logic for runner working for sections
@@ -301,6 +303,9 @@ class Runner(ReprMixin):
                 )
             elif self._is_specific_class(section_or_callable):
                 results.append(self._get_one_obj_with_config(subsection_path_str))
+            elif inspect.isclass(section_or_callable):
+                # get class with config. Must not affect getting or running the object of the class
+                results.append(self._get_partial_with_config(subsection_path_str, self._loaded_section_classes))
             elif callable(section_or_callable):
                 # get function
                 results.append(self._get_one_func_with_config(subsection_path_str))
@@ -312,16 +317,19 @@ class Runner(ReprMixin):
         return results
 
     def _get_one_func_with_config(self, section_path_str: str) -> Callable:
-        if section_path_str in self._loaded_objects:
+        return self._get_partial_with_config(section_path_str, self._loaded_objects)
+
+    def _get_partial_with_config(self, section_path_str: str, loaded: Dict[str, Any]) -> Callable:
+        if section_path_str in loaded:
             self._add_to_config_dependencies_if_necessary(section_path_str)
-            return self._loaded_objects[section_path_str]
+            return loaded[section_path_str]
 
         func, config_dict = self._get_func_and_config(section_path_str)
 
         full_func = partial(func, **config_dict)
 
         self._add_full_section_path_str_to_obj(section_path_str, full_func)
-        self._loaded_objects[section_path_str] = full_func
+        loaded[section_path_str] = full_func
         self._add_to_config_dependencies_if_necessary(section_path_str)
         return full_func
 
@@ -427,8 +435,9 @@ class Runner(ReprMixin):
             # Updated local config, there is no item for it
             return
 
-        if section_path_str in self._loaded_objects:
-            apply_config(self._loaded_objects[section_path_str], config)
+        for loaded in (self._loaded_objects, self._loaded_section_classes):
+            if section_path_str in loaded:
+                apply_config(loaded[section_path_str], config)
 
         # Even if the item has not been loaded in this runner, others may already depend on it,
         # e.g. because it was loaded before reloading the manager
-- 
2.43.0


From c34c0df1d5df63b24ec403e5e9bdc54faae2b92b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:49:02 +0000
Subject: [PATCH 32/43] fix: do not override values which config files set by
 defining or importing them

---
 pyfileconf/io/file/write/config.py | 71 ++++++++++++++++++++++++++++--
 1 file changed, 68 insertions(+), 3 deletions(-)

diff --git a/pyfileconf/io/file/write/config.py b/pyfileconf/io/file/write/config.py
index d634441..59f848d 100644
--- a/pyfileconf/io/file/write/config.py
+++ b/pyfileconf/io/file/write/config.py
@@ -1,6 +1,6 @@
 import ast
 import re
-from typing import List, Optional, Tuple, TYPE_CHECKING
+from typing import List, Optional, Set, Tuple, TYPE_CHECKING
 if TYPE_CHECKING:
     from pyfileconf.basemodels.config import ConfigBase
 
@@ -74,6 +74,22 @@ class ConfigFileStr(FileStr):
         ]
         return ''.join(out_lines)
 
+    def _combine_imports_get_new_assignments(self, import_assignment_obj,
+                                             existing_imports: ImportStatementContainer,
+                                             existing_assigns: AssignmentStatementContainer):
+        all_imports, *all_new_assigns = super()._combine_imports_get_new_assignments(
+            import_assignment_obj,
+            existing_imports=existing_imports,
+            existing_assigns=existing_assigns
+        )
+        # A value may also be set in another way than by assigning, e.g. by defining a function or by importing it
+        bound_names = _extract_bound_names(self.existing_statements)
+        new_assigns_begin, new_assigns_end = [
+            AssignmentStatementContainer([assign for assign in assigns if assign.varname not in bound_names])
+            for assigns in all_new_assigns
+        ]
+        return all_imports, new_assigns_begin, new_assigns_end
+
     def _get_import_positions(self) -> Tuple[int, int, bool]:
         """
         :return: index of the line before which begin imports go, index of the line before which
@@ -133,8 +149,7 @@ class ConfigFileStr(FileStr):
 class _ExecutedImportExtractor(ImportExtractor):
 
     def visit_If(self, node):
-        test_names = {getattr(test, 'id', getattr(test, 'attr', None)) for test in ast.walk(node.test)}
-        if 'TYPE_CHECKING' in test_names:
+        if _is_type_checking(node):
             # Is not imported when actually running
             return
         self.generic_visit(node)
@@ -147,6 +162,56 @@ def _extract_executed_imports(statements: List[ast.stmt]) -> ImportStatementCont
     return ie.imports
 
 
+class _BoundNameExtractor(ast.NodeVisitor):
+    """
+    Extracts the names of everything which is defined at the level of the module
+    """
+
+    def __init__(self):
+        self.names: Set[str] = set()
+
+    def visit_FunctionDef(self, node):
+        self.names.add(node.name)
+
+    visit_AsyncFunctionDef = visit_FunctionDef
+    visit_ClassDef = visit_FunctionDef
+
+    def visit_Name(self, node):
+        if isinstance(node.ctx, ast.Store):
+            self.names.add(node.id)
+
+    def visit_Import(self, node):
+        self.names.update((alias.asname or alias.name).split('.')[0] for alias in node.names)
+
+    visit_ImportFrom = visit_Import
+
+    def visit_If(self, node):
+        if not _is_type_checking(node):
+            self.generic_visit(node)
+
+    def _skip(self, node):
+        # These have their own scope
+        return
+
+    visit_Lambda = _skip
+    visit_ListComp = _skip
+    visit_SetComp = _skip
+    visit_DictComp = _skip
+    visit_GeneratorExp = _skip
+
+
+def _extract_bound_names(statements: List[ast.stmt]) -> Set[str]:
+    bne = _BoundNameExtractor()
+    for statement in statements:
+        bne.visit(statement)
+    return bne.names
+
+
+def _is_type_checking(node: ast.If) -> bool:
+    test_names = {getattr(test, 'id', getattr(test, 'attr', None)) for test in ast.walk(node.test)}
+    return 'TYPE_CHECKING' in test_names
+
+
 def _is_docstring(statement: ast.stmt) -> bool:
     return isinstance(statement, ast.Expr) and isinstance(statement.value, ast.Constant) and \
         isinstance(statement.value.value, str)
-- 
2.43.0


From 9bd33a885e1667f03cc43b6a273cf3918763470d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:52:34 +0000
Subject: [PATCH 33/43] fix: reloading picks up edited source of items which a
 config file imported first

---
 pyfileconf/imports/models/tracker.py      | 10 +++++++++-
 pyfileconf/io/file/load/active/userdef.py |  7 ++++++-
 2 files changed, 15 insertions(+), 2 deletions(-)

diff --git a/pyfileconf/imports/models/tracker.py b/pyfileconf/imports/models/tracker.py
index e9b57b2..ee7c2de 100644
--- a/pyfileconf/imports/models/tracker.py
+++ b/pyfileconf/imports/models/tracker.py
@@ -3,7 +3,8 @@ import os
 import sys
 from typing import Iterable, Optional, Set
 
-# Modules which were imported by pyfileconf to get a function or class, or which were imported by those modules
+# Modules which were imported by pyfileconf to get a function or class, or which were imported by those modules.
+# Also those which were imported by executing config files, as functions and classes may be defined in them
 item_modules: Set[str] = set()
 
 
@@ -28,6 +29,13 @@ def track_item_modules(imported_modules: Iterable[str], item_module_names: Itera
     item_modules.update(module for module in imported_modules if module.split('.')[0] in packages)
 
 
+def track_config_modules(imported_modules: Iterable[str]) -> None:
+    """
+    :param imported_modules: everything that was imported in executing a config file
+    """
+    item_modules.update(imported_modules)
+
+
 def wipe_item_modules(item_module_names: Iterable[Optional[str]]) -> None:
     """
     Makes sure that the current source will be used the next time the items are imported, for
diff --git a/pyfileconf/io/file/load/active/userdef.py b/pyfileconf/io/file/load/active/userdef.py
index 38cf36a..5dbe785 100644
--- a/pyfileconf/io/file/load/active/userdef.py
+++ b/pyfileconf/io/file/load/active/userdef.py
@@ -6,6 +6,7 @@ from typing import Optional
 
 from pyfileconf.exceptions.imports import CouldNotImportException
 from pyfileconf.imports.models.statements.container import ImportStatementContainer
+from pyfileconf.imports.models.tracker import ImportTracker, track_config_modules
 
 def get_user_defined_dict_from_filepath(filepath: str, module_name: str=None, remove_imports=False,
                                         imports: ImportStatementContainer=None) -> dict:
@@ -47,7 +48,11 @@ def _load_file_as_module(filepath: str, name: Optional[str] = 'module.name') ->
     # Always compile the current source. Executing through the loader would use the cached bytecode of a
     # previous version of the file if it was edited within the time stamp resolution and kept its size
     code = spec.loader.source_to_code(spec.loader.get_data(filepath), filepath)
-    exec(code, module.__dict__)
+    tracker = ImportTracker()
+    try:
+        exec(code, module.__dict__)
+    finally:
+        track_config_modules(tracker.imported_modules)
 
     if add_to_sys:
         sys.modules.update({name: module})
-- 
2.43.0


From 31e7f90a0474df9448fe186446147564eafe6c31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:53:41 +0000
Subject: [PATCH 34/43] fix: do not replace names which a config file defines
 by adding imports

---
 pyfileconf/io/file/write/config.py | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/pyfileconf/io/file/write/config.py b/pyfileconf/io/file/write/config.py
index 59f848d..221527c 100644
--- a/pyfileconf/io/file/write/config.py
+++ b/pyfileconf/io/file/write/config.py
@@ -9,6 +9,7 @@ from pyfileconf.io.file.load.parsers.imp import ImportExtractor
 from pyfileconf.io.file.write.base import FileStr
 
 from pyfileconf.imports.models.statements.container import ImportStatementContainer
+from pyfileconf.imports.models.statements.interfaces import AnyImportStatementOrComment
 from pyfileconf.assignments.models.container import AssignmentStatementContainer
 
 class ConfigFileStr(FileStr):
@@ -84,6 +85,11 @@ class ConfigFileStr(FileStr):
         )
         # A value may also be set in another way than by assigning, e.g. by defining a function or by importing it
         bound_names = _extract_bound_names(self.existing_statements)
+        # Nothing in the file should become something else through a new import
+        all_imports = ImportStatementContainer([
+            imp for imp in all_imports
+            if imp in existing_imports or not bound_names.intersection(_extract_replaced_names(imp))
+        ])
         new_assigns_begin, new_assigns_end = [
             AssignmentStatementContainer([assign for assign in assigns if assign.varname not in bound_names])
             for assigns in all_new_assigns
@@ -207,6 +213,20 @@ def _extract_bound_names(statements: List[ast.stmt]) -> Set[str]:
     return bne.names
 
 
+def _extract_replaced_names(imp: AnyImportStatementOrComment) -> Set[str]:
+    """
+    The names which get another value by an import, if they were already defined
+    """
+    names: Set[str] = set()
+    for statement in ast.parse(str(imp)).body:
+        for alias in getattr(statement, 'names', []):
+            name = alias.asname or alias.name
+            # Importing a submodule only imports the parent module again
+            if '.' not in name:
+                names.add(name)
+    return names
+
+
 def _is_type_checking(node: ast.If) -> bool:
     test_names = {getattr(test, 'id', getattr(test, 'attr', None)) for test in ast.walk(node.test)}
     return 'TYPE_CHECKING' in test_names
-- 
2.43.0


From 4fa119ca6bc2afc47b839700af3c33d851188dc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:20:46 +0000
Subject: [PATCH 35/43] fix: import functions and classes from where they are
 defined, not from the running script

---
 pyfileconf/imports/logic/load/name.py | 32 +++++++++++++++++++++++++--
 1 file changed, 30 insertions(+), 2 deletions(-)

diff --git a/pyfileconf/imports/logic/load/name.py b/pyfileconf/imports/logic/load/name.py
index 0e92b0b..3169e37 100644
--- a/pyfileconf/imports/logic/load/name.py
+++ b/pyfileconf/imports/logic/load/name.py
@@ -1,5 +1,6 @@
-from typing import List, Any, Tuple, Iterator
+from typing import List, Any, Optional, Tuple, Iterator
 from types import ModuleType
+import importlib
 import sys
 
 from pyfileconf.exceptions.imports import CouldNotDetermineModuleForObjectException
@@ -14,7 +15,12 @@ def get_imported_obj_variable_name(obj, module: ModuleType) -> str:
 
 def get_module_and_name_imported_from(obj, search_list: List[str]=None) -> Tuple[ModuleType, str]:
     if search_list is None:
-        search_list = list(sys.modules.keys())
+        # Prefer where the object was defined. Other modules may have imported it as well, including
+        # the script which is running, from which it could not be imported
+        module_name = _get_name_of_defining_module(obj)
+        if module_name is not None:
+            return sys.modules[module_name], module_name
+        search_list = sorted(sys.modules.keys(), key=lambda name: name == '__main__')
 
     for module_name in search_list:
 
@@ -28,6 +34,28 @@ def get_module_and_name_imported_from(obj, search_list: List[str]=None) -> Tuple
 
     raise CouldNotDetermineModuleForObjectException(f'could not find {obj} in {search_list}')
 
+def _get_name_of_defining_module(obj) -> Optional[str]:
+    """
+    :return: None if the object cannot be imported by its name from where it was defined
+    """
+    module_name = getattr(obj, '__module__', None)
+    name = getattr(obj, '__name__', None)
+    if module_name is None or name is None or module_name == '__main__':
+        return None
+    try:
+        # Would already be imported unless it was wiped to use its current source
+        module = importlib.import_module(module_name)
+    except ImportError:
+        return None
+    found_obj = getattr(module, name, None)
+    if found_obj is obj:
+        return module_name
+    # Also accept the object of this name if the module was imported again since the passed object was imported
+    is_same_definition = all(
+        getattr(found_obj, attr, None) == getattr(obj, attr, None) for attr in ('__module__', '__qualname__')
+    )
+    return module_name if is_same_definition else None
+
 def is_imported_name(name: str, search_list: List[str]=None) -> bool:
     if search_list is None:
         search_list = list(sys.modules.keys())
-- 
2.43.0


From 2e81b275483d0d7a3d2c0229d74fd87ebdf706d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:22:31 +0000
Subject: [PATCH 36/43] fix: importing an object under another name does not
 import its original name

---
 pyfileconf/imports/models/statements/container.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyfileconf/imports/models/statements/container.py b/pyfileconf/imports/models/statements/container.py
index 365229a..4fd1709 100644
--- a/pyfileconf/imports/models/statements/container.py
+++ b/pyfileconf/imports/models/statements/container.py
@@ -94,7 +94,7 @@ class ImportStatementContainer(Container, ReprMixin):
         found_import = False
         for imp in self:
             if isinstance(imp, ModuleImportStatement):
-                if name in imp.modules:
+                if name in imp.modules and name not in imp.renames.orig_names:
                     # match on original module name
                     # set up for creating a new import
                     found_import = True
@@ -114,7 +114,7 @@ class ImportStatementContainer(Container, ReprMixin):
                     # May be multiple modules imported in this one statement. Create a new statement with just this module
                     return ModuleImportStatement(modules=modules, renames=renames)
             elif isinstance(imp, ObjectImportStatement):
-                if name in imp.objs:
+                if name in imp.objs and name not in imp.renames.orig_names:
                     # match on original object name
                     # set up for creating a new import
                     found_import = True
-- 
2.43.0


From 98d2690a4247aaa982748d4c8134b49936f35434 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:22:31 +0000
Subject: [PATCH 37/43] fix: do not create entries whose function or class
 could not be imported by its name

---
 pyfileconf/main.py | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/pyfileconf/main.py b/pyfileconf/main.py
index 05819a8..769178f 100644
--- a/pyfileconf/main.py
+++ b/pyfileconf/main.py
@@ -44,6 +44,7 @@ from pyfileconf.data.models.dictfile import SpecificClassDictFile
 from pyfileconf.runner.models.runner import Runner, ResultOrResults
 from pyfileconf.imports.models.tracker import ImportTracker, wipe_item_modules
 from pyfileconf.sectionpath.sectionpath import SectionPath
+from pyfileconf.exceptions.imports import NoImportMatchingNameException
 from pyfileconf.exceptions.pipelinemanager import PipelineManagerNotLoadedException, \
     NoPipelineManagerForFilepathException, NoPipelineManagerForSectionPathException
 from pyfileconf.logger.bind_stdout import stdout_also_logged
@@ -454,7 +455,6 @@ class PipelineManager:
             # Got path for main pipeline dict, add to main pipeline dict
             if func_or_class is None:
                 raise ValueError('when adding creating item in main pipeline dict, must pass function or class')
-            self._create_pipeline_dict_entry(section_path, func_or_class)
             name = func_or_class.__name__
             full_sp = SectionPath.join(section_path, name)
             mod, import_base = get_module_and_name_imported_from(func_or_class)
@@ -462,6 +462,9 @@ class PipelineManager:
             item = ast.Name(id=name)
             imports = ImportStatementContainer([obj_import])
             registrar_obj = ObjectView.from_ast_and_imports(item, imports)
+            # If the arguments cannot be loaded, the dict should not be changed
+            registrar_obj.default_config
+            self._create_pipeline_dict_entry(section_path, func_or_class)
             if self._general_registrar is None:
                 raise ValueError('general registrar must be defined')
             registrar = self._general_registrar
@@ -549,6 +552,9 @@ class PipelineManager:
 
         mod, import_base = get_module_and_name_imported_from(func_or_class)
         obj_import = ObjectImportStatement([func_or_class.__name__], import_base)
+        if _name_is_imported_from_elsewhere(obj_import, pipeline_dict_file.interface.imports):
+            raise ValueError(f'cannot create entry for {func_or_class.__name__} from {import_base}, as '
+                             f'{self.pipeline_dict_path} already uses this name for something else')
         imports = ImportStatementContainer([obj_import])
 
         # Modify pipeline dict to add entry
@@ -707,6 +713,16 @@ def _get_modules_of_items(collection: PipelineCollection) -> List[Optional[str]]
             modules.extend(item.loaded_from_modules)
     return modules
 
+def _name_is_imported_from_elsewhere(obj_import: ObjectImportStatement, imports: ImportStatementContainer) -> bool:
+    try:
+        existing_import = imports.get_import_for_module_or_obj_name(obj_import.objs[0])
+    except NoImportMatchingNameException:
+        return False
+    if existing_import == obj_import:
+        return False
+    # May still be the same, imported through another module
+    return existing_import.execute()[0] is not obj_import.execute()[0]
+
 def _return_with_traceback(any: Any) -> Tuple[Any, str]:
     return any, traceback.format_exc()
 
-- 
2.43.0


From ced0d358e483c5c9ac43b505c7dfee10b2f4cf0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:41:18 +0000
Subject: [PATCH 38/43] fix: views of items which are not available in config
 values do not break other managers

---
 pyfileconf/assignments/logic/write.py | 11 ++++++-----
 pyfileconf/basemodels/config.py       |  9 +++++++++
 2 files changed, 15 insertions(+), 5 deletions(-)

diff --git a/pyfileconf/assignments/logic/write.py b/pyfileconf/assignments/logic/write.py
index ac190d4..e72e4fb 100644
--- a/pyfileconf/assignments/logic/write.py
+++ b/pyfileconf/assignments/logic/write.py
@@ -20,14 +20,15 @@ def _assignment_output_repr(value: Any, module_strs: List[str] = None):
     """
     from pyfileconf.selector.models.selector import _is_selector
     from pyfileconf.selector.models.itemview import is_item_view, ItemView
-    if _is_selector(value):
-        # accessing porperties of selector object will cause issues. Only need to return Selector()
-        return 'Selector()'
-
     if is_item_view(value):
-        # accessing properties of ItemView object will also cause issues. need to return s. and section path
+        # accessing properties of ItemView object will cause issues, as the item may not be available now. Must be
+        # checked first, as checking for a selector would do that. Need to return s. and section path
         return f's.{value.section_path_str}'
 
+    if _is_selector(value):
+        # accessing porperties of selector object will also cause issues. Only need to return Selector()
+        return 'Selector()'
+
     # Handle functions, other things with builtin names
     try:
         return value.__name__
diff --git a/pyfileconf/basemodels/config.py b/pyfileconf/basemodels/config.py
index 023aade..a400d5e 100644
--- a/pyfileconf/basemodels/config.py
+++ b/pyfileconf/basemodels/config.py
@@ -181,6 +181,15 @@ class ConfigBase(dict):
 
 
 def _values_are_equal(val1: Any, val2: Any) -> bool:
+    from pyfileconf.selector.models.itemview import is_item_view
+
+    # Item views must be compared as views. Checking the type of a view would check the type
+    # of the item, which may not be available now
+    if is_item_view(val1):
+        return val1 == val2
+    elif is_item_view(val2):
+        return val2 == val1
+
     # Special handling for pandas
     if isinstance(val1, (pd.DataFrame, pd.Series)):
         return val1.equals(val2)
-- 
2.43.0


From efd4f550c3e0113aeec33a849ac842c7224c3f93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:54:27 +0000
Subject: [PATCH 39/43] fix: loading again does not forget which modules must
 be imported again by reload

---
 pyfileconf/main.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/pyfileconf/main.py b/pyfileconf/main.py
index 769178f..e48e499 100644
--- a/pyfileconf/main.py
+++ b/pyfileconf/main.py
@@ -316,6 +316,8 @@ class PipelineManager:
         # If this is a reload and it fails, must keep working with what was loaded before
         loaded_attrs = ('_registrars', '_general_registrar', 'config', 'runner')
         previous = {attr: self.__dict__[attr] for attr in loaded_attrs if attr in self.__dict__}
+        # If it is loaded again without wiping the modules, those which were already imported must still be tracked
+        previous_modules = self.__dict__.get('_loaded_modules', [])
 
         try:
             self._load_pipeline_config_and_runner()
@@ -324,12 +326,11 @@ class PipelineManager:
             for attr in loaded_attrs:
                 self.__dict__.pop(attr, None)
             self.__dict__.update(previous)
-            self._loaded_modules = self._import_tracker.imported_modules
+            self._loaded_modules = [*previous_modules, *self._import_tracker.imported_modules]
             self._wipe_loaded_modules()
-            self._loaded_modules = [] # modules have been wiped, must be sure they won't be wiped again
             raise e
 
-        self._loaded_modules = self._import_tracker.imported_modules
+        self._loaded_modules = [*previous_modules, *self._import_tracker.imported_modules]
         if context.active_managers.get(self.name) is self:
             self.config.refresh_dependent_configs_of_other_managers()
         logger.debug(f'Finished running load for {self.name}')
@@ -599,6 +600,7 @@ class PipelineManager:
 
     def _wipe_loaded_modules(self):
         [sys.modules.pop(module, None) for module in self._loaded_modules]
+        self._loaded_modules = []  # modules have been wiped, must be sure they won't be wiped again
         if self._general_registrar is not None:
             wipe_item_modules(_get_modules_of_items(self._general_registrar.collection))
 
-- 
2.43.0


From 1f5aed5b93433ac29336f6e02969a6f98d1a39bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:41:01 +0000
Subject: [PATCH 40/43] fix: compare config values which are numpy arrays or
 pandas indexes, or whose comparison has no truth value

---
 pyfileconf/basemodels/config.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/pyfileconf/basemodels/config.py b/pyfileconf/basemodels/config.py
index a400d5e..8d5e306 100644
--- a/pyfileconf/basemodels/config.py
+++ b/pyfileconf/basemodels/config.py
@@ -3,6 +3,7 @@ from typing import Tuple, Optional, Type, Sequence, Any, Dict
 import os
 from copy import deepcopy
 
+import numpy as np
 import pandas as pd
 
 from pyfileconf.basemodels.file import ConfigFileBase
@@ -191,14 +192,19 @@ def _values_are_equal(val1: Any, val2: Any) -> bool:
         return val2 == val1
 
     # Special handling for pandas
-    if isinstance(val1, (pd.DataFrame, pd.Series)):
+    pandas_types = (pd.DataFrame, pd.Series, pd.Index)
+    if isinstance(val1, pandas_types):
         return val1.equals(val2)
-    elif isinstance(val2, (pd.DataFrame, pd.Series)):
+    elif isinstance(val2, pandas_types):
         # First is not pandas object, so must not be equal
         return False
 
     try:
-        return val1 == val2
+        if isinstance(val1, np.ndarray) or isinstance(val2, np.ndarray):
+            # Comparing with an array gives an array rather than whether they are equal
+            return type(val1) is type(val2) and np.array_equal(val1, val2)
+        # Can fail in bool as well, when the result of the comparison has no truth value
+        return bool(val1 == val2)
     except Exception as e:
         warnings.warn(f'Could not check if values {val1} and {val2} of '
                       f'type {type(val1)} and {type(val2)} are '
-- 
2.43.0


From 40ea185e10a07f2ec2b7b3a50a74b760a830d52d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:41:19 +0000
Subject: [PATCH 41/43] fix: run objects of specific classes by the method of
 their own specific class dict when several have the same class

---
 pyfileconf/runner/models/runner.py     |  5 +++--
 pyfileconf/selector/models/itemview.py | 10 +++-------
 2 files changed, 6 insertions(+), 9 deletions(-)

diff --git a/pyfileconf/runner/models/runner.py b/pyfileconf/runner/models/runner.py
index 5d8bef8..1aacdc7 100644
--- a/pyfileconf/runner/models/runner.py
+++ b/pyfileconf/runner/models/runner.py
@@ -40,7 +40,8 @@ class Runner(ReprMixin):
 
         self._full_getattr = ''
         self._all_specific_classes = tuple([registrar.klass for registrar in self._registrars])
-        self._specific_class_registrar_map = {registrar.klass: registrar for registrar in self._registrars}
+        # Multiple registrars may have the same class, so must look them up by name
+        self._registrar_name_map = {registrar.name: registrar for registrar in self._registrars}
         self._loaded_objects: Dict[str, Any] = {}
         # Classes in sections are loaded separately from the objects of those classes
         self._loaded_section_classes: Dict[str, Any] = {}
@@ -225,7 +226,7 @@ class Runner(ReprMixin):
         with StackTracker(section_path_str, base_section_path_str=self._manager_name):
             klass, config_dict = self._get_class_and_config(section_path_str)
             obj = self._get_one_obj_with_config(section_path_str)
-            registrar = self._specific_class_registrar_map[klass]
+            registrar = self._registrar_name_map[SectionPath(section_path_str)[0]]
             execute_attr = registrar.execute_attr
             func = getattr(obj, execute_attr)
 
diff --git a/pyfileconf/selector/models/itemview.py b/pyfileconf/selector/models/itemview.py
index a20596a..e96b94a 100644
--- a/pyfileconf/selector/models/itemview.py
+++ b/pyfileconf/selector/models/itemview.py
@@ -104,11 +104,7 @@ class ItemView:
         # Determine whether this object is from a specific class collection
         manager = PipelineManager.get_manager_by_section_path_str(self.section_path_str)
         collection_name = SectionPath(self.section_path_str)[1]
-        try:
-            manager._registrar_dict[collection_name]
-            specific_class = True
-        except KeyError:
-            specific_class = False
+        specific_class = collection_name in manager.specific_class_names
 
         # Handle depending on the type of item
         if isinstance(actual_item, partial):
@@ -118,8 +114,8 @@ class ItemView:
             # Got specific registrar class
             # Need to look up the execute attribute and apply section path str
             actual_item._section_path_str = self.section_path_str
-            collection = self._specific_class_collection_map[type(actual_item)]
-            execute_attr = collection.execute_attr
+            # Multiple collections may have the same class, so must use the one it was selected from
+            execute_attr = manager._registrar_dict[collection_name].execute_attr
             func = getattr(actual_item, execute_attr)
         else:
             cannot_parse_error = ValueError(f'could not parse actual item, expected partial, '
-- 
2.43.0


From 38c36107b89dd00665536ab89f83b4025ef5d1d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:41:38 +0000
Subject: [PATCH 42/43] fix: dir() of a manager which is not loaded

---
 pyfileconf/main.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyfileconf/main.py b/pyfileconf/main.py
index e48e499..f23d879 100644
--- a/pyfileconf/main.py
+++ b/pyfileconf/main.py
@@ -108,7 +108,7 @@ class PipelineManager:
         ]
         exposed_attrs = ['name'] + self.specific_class_names
         exposed = exposed_methods + exposed_attrs
-        if hasattr(self, '_registrars'):
+        if self._registrars is not None:
             skip_methods = [
                 'scaffold_config',
                 'basepath',
-- 
2.43.0


From f14d939f6de563e48776e30630b9940bd91e399e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:45:30 +0000
Subject: [PATCH 43/43] fix: use the default of an argument which the config
 file no longer mentions after refresh or reset

---
 pyfileconf/basemodels/config.py     | 32 +++++++++++++++++-----
 pyfileconf/config/models/manager.py | 33 +++++++++++++++++------
 pyfileconf/runner/models/runner.py  | 41 ++++++++++++++++++++++++++---
 3 files changed, 88 insertions(+), 18 deletions(-)

diff --git a/pyfileconf/basemodels/config.py b/pyfileconf/basemodels/config.py
index 8d5e306..b764d52 100644
--- a/pyfileconf/basemodels/config.py
+++ b/pyfileconf/basemodels/config.py
@@ -1,5 +1,5 @@
 import warnings
-from typing import Tuple, Optional, Type, Sequence, Any, Dict
+from typing import Tuple, Optional, Type, Sequence, Any, Dict, Callable, Iterable
 import os
 from copy import deepcopy
 
@@ -121,21 +121,39 @@ class ConfigBase(dict):
     def copy(self):
         return deepcopy(self)
 
-    def _get_new_config_from_file(self):
-        return self.__class__.from_file(
+    def fill_in(self, get_default_args: Optional[Callable[[], Dict[str, Any]]],
+                needed: Optional[Iterable[str]] = None):
+        """
+        Adds arguments which are not in the config because its file does not mention them
+
+        :param get_default_args: function to get the default values of all the arguments
+        :param needed: names which may be among the missing arguments, default is any argument
+        """
+        if get_default_args is None or (needed is not None and all(key in self for key in needed)):
+            return
+        for key, value in get_default_args().items():
+            if needed is None or key in needed:
+                self.setdefault(key, value)
+
+    def _get_new_config_from_file(self, get_default_args: Optional[Callable[[], Dict[str, Any]]] = None):
+        new_config = self.__class__.from_file(
             self._file.filepath, name=self.name,
             klass=self.klass, always_import_strs=self.always_import_strs,
             always_assign_strs=self.always_assign_strs
         )
+        self.fill_in(get_default_args, new_config)
+        new_config.fill_in(get_default_args, self.keys() - self._applied_updates.keys())
+        return new_config
 
-    def refresh(self) -> Dict[str, Any]:
+    def refresh(self, get_default_args: Optional[Callable[[], Dict[str, Any]]] = None) -> Dict[str, Any]:
         """
         Reloads from the existing, then re-applies any config updates. Useful for when
         this config depends on the attribute of some other config which was updated.
+        :param get_default_args: see fill_in
         :return: The updates made to the config
         """
         # Reload from file
-        new_config = self._get_new_config_from_file()
+        new_config = self._get_new_config_from_file(get_default_args)
         all_updates = {**new_config, **self._applied_updates}
         self.update(all_updates, pyfileconf_persist=False)
         return all_updates
@@ -163,7 +181,7 @@ class ConfigBase(dict):
 
         return False
 
-    def change_from_refresh(self) -> Dict[str, Any]:
+    def change_from_refresh(self, get_default_args: Optional[Callable[[], Dict[str, Any]]] = None) -> Dict[str, Any]:
         """
         Determines whether refresh would actually cause
         a change in the config and returns a dictionary of
@@ -173,7 +191,7 @@ class ConfigBase(dict):
             while calling .refresh if it would be updated,
             otherwise an empty dict
         """
-        new_config = self._get_new_config_from_file()
+        new_config = self._get_new_config_from_file(get_default_args)
         final_updates = {**new_config, **self._applied_updates}
         would_update = self.would_update(final_updates)
         if would_update:
diff --git a/pyfileconf/config/models/manager.py b/pyfileconf/config/models/manager.py
index d43082f..cca0d51 100644
--- a/pyfileconf/config/models/manager.py
+++ b/pyfileconf/config/models/manager.py
@@ -1,5 +1,5 @@
 import os
-from typing import Union, Any, Optional, Iterable, Dict, TYPE_CHECKING, Tuple, cast, List
+from typing import Union, Any, Optional, Iterable, Dict, TYPE_CHECKING, Tuple, cast, List, Callable
 
 if TYPE_CHECKING:
     from pyfileconf.main import PipelineManager
@@ -52,13 +52,15 @@ class ConfigManager(ReprMixin):
         self.section = ConfigSection.from_files(self.basepath)
 
     def update(
-        self, d_: dict=None, section_path_str: str=None, pyfileconf_persist: bool = True, **kwargs
+        self, d_: dict=None, section_path_str: str=None, pyfileconf_persist: bool = True,
+        pyfileconf_get_default_args: Optional[Callable[[], Dict[str, Any]]] = None, **kwargs
     ) -> Tuple[ConfigBase, bool]:
         """
 
         :param d_:
         :param section_path_str:
         :param pyfileconf_persist:
+        :param pyfileconf_get_default_args: see ConfigBase.fill_in
         :param kwargs:
         :return: new config, whether config was updated
         """
@@ -66,6 +68,7 @@ class ConfigManager(ReprMixin):
         if config_obj is None:
             raise ConfigManagerNotLoadedException('no config to update')
         all_updates = {**(d_ or {}), **kwargs}
+        config_obj.fill_in(pyfileconf_get_default_args, all_updates)
         would_update = self._determine_and_track_if_config_would_be_updated(
             config_obj, section_path_str, all_updates
         )
@@ -76,13 +79,17 @@ class ConfigManager(ReprMixin):
             config_obj.track_applied_updates(all_updates)
         return config_obj, would_update
 
-    def refresh(self, section_path_str: str) -> Tuple[ConfigBase, bool, Dict[str, Any]]:
+    def refresh(
+        self, section_path_str: str, get_default_args: Optional[Callable[[], Dict[str, Any]]] = None
+    ) -> Tuple[ConfigBase, bool, Dict[str, Any]]:
         config_obj = self._get_project_config_or_local_config_by_section_path(section_path_str)
         if config_obj is None:
             raise ConfigManagerNotLoadedException('no config to refresh')
-        would_refresh = self._determine_and_track_if_config_would_be_refreshed(config_obj, section_path_str)
+        would_refresh = self._determine_and_track_if_config_would_be_refreshed(
+            config_obj, section_path_str, get_default_args
+        )
         if would_refresh:
-            updates = config_obj.refresh()
+            updates = config_obj.refresh(get_default_args)
         else:
             updates = {}
         return config_obj, would_refresh, updates
@@ -123,7 +130,10 @@ class ConfigManager(ReprMixin):
                 # This manager is fine, the other one depends on something which is gone or no longer works
                 logger.exception(f'could not refresh {dependent}, which depends on {self.pipeline_manager_name}')
 
-    def reset(self, section_path_str: str=None, allow_create: bool = False) -> Tuple[ConfigBase, bool]:
+    def reset(
+        self, section_path_str: str=None, allow_create: bool = False,
+        get_default_args: Optional[Callable[[], Dict[str, Any]]] = None
+    ) -> Tuple[ConfigBase, bool]:
         """
         Resets a function or section config to default. If no section_path_str is passed, resets local config.
 
@@ -136,6 +146,10 @@ class ConfigManager(ReprMixin):
         if section_path_str is not None and self.has_config(section_path_str):
             # The values of the sections must still apply after resetting
             self._override_with_section_and_local_configs(default, section_path_str)
+            current = self._get_func_or_section_configs(section_path_str)
+            if current is not None:
+                current.fill_in(get_default_args, default)
+                default.fill_in(get_default_args, current)
         new_config, updated = self.set(section_path_str, default, allow_create=allow_create)
         return new_config, updated
 
@@ -390,8 +404,11 @@ class ConfigManager(ReprMixin):
             self._track_pre_update(config_, section_path_str, all_updates)
         return would_update
 
-    def _determine_and_track_if_config_would_be_refreshed(self, config: ConfigBase, section_path_str: str) -> bool:
-        updates = config.change_from_refresh()
+    def _determine_and_track_if_config_would_be_refreshed(
+        self, config: ConfigBase, section_path_str: str,
+        get_default_args: Optional[Callable[[], Dict[str, Any]]] = None
+    ) -> bool:
+        updates = config.change_from_refresh(get_default_args)
         if updates:
             self._track_pre_update(config, section_path_str, updates)
         return updates != {}
diff --git a/pyfileconf/runner/models/runner.py b/pyfileconf/runner/models/runner.py
index 1aacdc7..2f84268 100644
--- a/pyfileconf/runner/models/runner.py
+++ b/pyfileconf/runner/models/runner.py
@@ -10,6 +10,8 @@ from pyfileconf.config.logic.apply import apply_config
 from pyfileconf.config.models.manager import ConfigManager, ActiveFunctionConfig
 from pyfileconf.data.models.collection import SpecificClassCollection
 from pyfileconf.exceptions.config import ConfigManagerNotLoadedException
+from pyfileconf.imports.logic.load.func import function_args_as_dict
+from pyfileconf.imports.logic.load.klass import class_function_args_as_dict
 from pyfileconf.logger.logger import logger
 from pyfileconf.pipelines.models.registrar import PipelineRegistrar, PipelineCollection
 from pyfileconf.logic.get import _get_public_name_or_special_name
@@ -381,6 +383,7 @@ class Runner(ReprMixin):
         config = self._get_config(section_path_str)
         func = self._get_func_or_collection(section_path_str)
         func = cast(Callable, func)
+        config.fill_in(partial(self._get_default_args_of_item, func, section_path_str))
 
         # Only pass items in config which are arguments of function
         config_dict = config.for_function(func)
@@ -395,14 +398,41 @@ class Runner(ReprMixin):
         else:
             klass = obj.__class__
         klass = cast('Type', klass)
+        config.fill_in(partial(self._get_default_args_of_item, obj, section_path_str))
 
         # Only pass items in config which are arguments of function
         config_dict = config.for_function(klass)
 
         return klass, config_dict
 
+    def _get_default_args(self, section_path_str: Optional[str]) -> Dict[str, Any]:
+        try:
+            item = None if section_path_str is None else self._get_func_or_collection(section_path_str)
+        except (KeyError, AttributeError):
+            # There is only a config file, and no item for it
+            item = None
+        if item is None or isinstance(item, Collection):
+            return {}
+        return self._get_default_args_of_item(item, section_path_str)
+
+    def _get_default_args_of_item(self, item: Any, section_path_str: str) -> Dict[str, Any]:
+        """
+        Gets what loading would add to the config file for the arguments it does not mention. It may
+        have been edited since then, so that arguments are missing.
+        """
+        if self._is_specific_class(item):
+            section_path = SectionPath(section_path_str)
+            key_attr = self._registrar_name_map[section_path[0]].key_attr
+            return {**class_function_args_as_dict(item.__class__), key_attr: section_path[-1]}
+        if inspect.isclass(item):
+            return class_function_args_as_dict(item)
+        return function_args_as_dict(item)
+
     def update(self, d_: dict=None, section_path_str: str=None, pyfileconf_persist: bool = True, **kwargs):
-        new_config, updated = self._config.update(d_, section_path_str, pyfileconf_persist=pyfileconf_persist, **kwargs)
+        new_config, updated = self._config.update(
+            d_, section_path_str, pyfileconf_persist=pyfileconf_persist,
+            pyfileconf_get_default_args=partial(self._get_default_args, section_path_str), **kwargs
+        )
 
         if updated:
             self._apply_config_and_track_post_update(new_config, section_path_str, {**(d_ or {}), **kwargs})
@@ -419,12 +449,17 @@ class Runner(ReprMixin):
                     self.reset(nested_section_path_str)
                 return
 
-        default, updated = self._config.reset(section_path_str=section_path_str, allow_create=allow_create)
+        default, updated = self._config.reset(
+            section_path_str=section_path_str, allow_create=allow_create,
+            get_default_args=partial(self._get_default_args, section_path_str)
+        )
         if updated:
             self._apply_config_and_track_post_update(default, section_path_str, default)
 
     def refresh(self, section_path_str: str):
-        config, updated, updates = self._config.refresh(section_path_str)
+        config, updated, updates = self._config.refresh(
+            section_path_str, get_default_args=partial(self._get_default_args, section_path_str)
+        )
 
         if updated:
             config = self._get_config(section_path_str)
-- 
2.43.0

