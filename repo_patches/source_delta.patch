From 1c816013638751b148603c36f805eb2ab7187794 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:39 +0000
Subject: [PATCH 01/54] fix: use the custom solid angle of the optical elements

---
 exorad/models/optics/opticalPath.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/exorad/models/optics/opticalPath.py b/exorad/models/optics/opticalPath.py
index 5dd2f76..e047408 100644
--- a/exorad/models/optics/opticalPath.py
+++ b/exorad/models/optics/opticalPath.py
@@ -64,10 +64,13 @@ class InstRadiance(Radiance):
         Default is 'path'.
     slit : None or bool
         Indicates if a slit is present in the optical path.
+    angle : None or Quantity
+        Custom solid angle of the optical element. Default is None.
     """
 
     position = "path"
     slit = None
+    angle = None
 
 
 class OpticalPath(Logger):
@@ -259,6 +262,7 @@ class OpticalPath(Logger):
             self.debug(f"Propagating {el.name}")
             out_radiance = InstRadiance(wl_grid=wl, data=np.zeros(wl.size))
             out_radiance.position = el.position
+            out_radiance.angle = el.angle
             if el.temperature is not None:
                 # Calculate the surface radiance
                 out_radiance.data = surface_radiance(
@@ -317,7 +321,7 @@ class OpticalPath(Logger):
                     ch_built_instr,
                     A,
                     ch_table,
-                    omega_pix,
+                    omega_pix if rad.angle is None else rad.angle,
                     qe,
                     rad,
                 )
-- 
2.43.0


From 97ead00c1fad21d48d64372ffe3610ebedd332af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:39 +0000
Subject: [PATCH 02/54] fix: register the slit width also when no element
 before the slit emits

---
 exorad/models/optics/opticalPath.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/exorad/models/optics/opticalPath.py b/exorad/models/optics/opticalPath.py
index e047408..946f2f8 100644
--- a/exorad/models/optics/opticalPath.py
+++ b/exorad/models/optics/opticalPath.py
@@ -260,6 +260,8 @@ class OpticalPath(Logger):
         for i, k in enumerate(opt_list):
             el = opt_el[k]
             self.debug(f"Propagating {el.name}")
+            if el.type == "slit":
+                self.slit_width = el.description["width"]["value"]
             out_radiance = InstRadiance(wl_grid=wl, data=np.zeros(wl.size))
             out_radiance.position = el.position
             out_radiance.angle = el.angle
@@ -277,7 +279,6 @@ class OpticalPath(Logger):
                 out_radiance.data *= opt_el[other_el].transmission
                 if opt_el[other_el].type == "slit":
                     out_radiance.slit = True
-                    self.slit_width = opt_el[other_el].description["width"]["value"]
             # Store the radiance data
             self.radiance_dict[el.name] = copy.deepcopy(out_radiance)
             self.radiance_table[el.name] = copy.deepcopy(out_radiance.data)
-- 
2.43.0


From 3462eaef6252bfa875dddd6c034af41b7ee86fa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:39 +0000
Subject: [PATCH 03/54] fix: filter the diffuse foregrounds by the transmission
 of the following ones

---
 exorad/models/instruments/instrument.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/exorad/models/instruments/instrument.py b/exorad/models/instruments/instrument.py
index 1ca745d..c60e030 100644
--- a/exorad/models/instruments/instrument.py
+++ b/exorad/models/instruments/instrument.py
@@ -191,14 +191,17 @@ class Instrument(Logger):
             radiance = copy.deepcopy(target.foreground[frg])
             self.debug("{} radiance . {}".format(frg, radiance.data))
 
-            if hasattr(frg, "transmission"):
-                frg.transmission.spectral_rebin(transmission.wl_grid)
-                transmission.data *= frg.transmission.data
-                self.debug("added {} transmission".format(frg))
-
             transmission.spectral_rebin(radiance.wl_grid)
             radiance.data *= transmission.data
 
+            # the foregrounds listed before this one are seen through it
+            frg_transmission = getattr(
+                target.foreground[frg], "transmission", None
+            )
+            if frg_transmission is not None:
+                transmission.data *= frg_transmission
+                self.debug("added {} transmission".format(frg))
+
             # for other_el in foregrounds[i+1:]:
             #     if hasattr(target.foreground[other_el], 'transmission'):
             #         self.debug('passing through {}'.format(other_el))
-- 
2.43.0


From 2b1445d5746dd0fe0ece764a992622a764cba1dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:39 +0000
Subject: [PATCH 04/54] fix: do not leak the foregrounds transmission of a
 target into the channel table

---
 exorad/models/instruments/instrument.py   | 15 ++++++++++++---
 exorad/models/instruments/photometer.py   |  5 +++--
 exorad/models/instruments/spectrometer.py |  5 +++--
 3 files changed, 18 insertions(+), 7 deletions(-)

diff --git a/exorad/models/instruments/instrument.py b/exorad/models/instruments/instrument.py
index c60e030..6acfb56 100644
--- a/exorad/models/instruments/instrument.py
+++ b/exorad/models/instruments/instrument.py
@@ -365,15 +365,24 @@ class Instrument(Logger):
 
         if hasattr(target, "skyTransmission"):
             target_transmission = copy.deepcopy(target.skyTransmission)
-            self.table["sky TR"], _ = self._get_transmission(
-                target_transmission.wl_grid, target_transmission.data
-            )
             target_transmission.spectral_rebin(wl)
             transmission.data *= target_transmission.data
 
         wave_window = np.ones(wl.size)
         return qe.data, transmission.data, wave_window
 
+    def _get_sky_transmission(self, target):
+        """
+        returns the foregrounds transmission in the channel bins, None if the target has no foregrounds transmission
+        """
+        if not hasattr(target, "skyTransmission"):
+            return None
+        target_transmission = copy.deepcopy(target.skyTransmission)
+        sky_transmission, _ = self._get_transmission(
+            target_transmission.wl_grid, target_transmission.data
+        )
+        return sky_transmission
+
     def _add_data_to_built(self, name, data):
         self.built_instr[name] = data
 
diff --git a/exorad/models/instruments/photometer.py b/exorad/models/instruments/photometer.py
index 4bdc5f2..6073d2f 100644
--- a/exorad/models/instruments/photometer.py
+++ b/exorad/models/instruments/photometer.py
@@ -135,8 +135,9 @@ class Photometer(Instrument):
         out = QTable()
         wl = target.star.sed.wl_grid
         qe, transmission, wave_window = self._get_efficiency(wl, target)
-        if "sky TR" in self.table.keys():
-            out["foreground_transmission"] = self.table["sky TR"]
+        sky_transmission = self._get_sky_transmission(target)
+        if sky_transmission is not None:
+            out["foreground_transmission"] = sky_transmission
 
         if self.payload["optics"]["ForceChannelWlEdge"]["value"]:
             self.debug("force channel wl edge enabled")
diff --git a/exorad/models/instruments/spectrometer.py b/exorad/models/instruments/spectrometer.py
index f57e861..5a8e0bc 100644
--- a/exorad/models/instruments/spectrometer.py
+++ b/exorad/models/instruments/spectrometer.py
@@ -327,8 +327,9 @@ class Spectrometer(Instrument):
         out = QTable()
         wl = target.star.sed.wl_grid
         qe, transmission, wave_window = self._get_efficiency(wl, target)
-        if "sky TR" in self.table.keys():
-            out["foreground_transmission"] = self.table["sky TR"]
+        sky_transmission = self._get_sky_transmission(target)
+        if sky_transmission is not None:
+            out["foreground_transmission"] = sky_transmission
         if self.payload["optics"]["ForceChannelWlEdge"]["value"]:
             self.debug("force channel wl edge enabled")
             idx = np.logical_or(
-- 
2.43.0


From 118b7471542bfcf9c37e9b70760c224cc7ec92cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:39 +0000
Subject: [PATCH 05/54] fix: do not compound the sky transmission when a target
 is observed again

---
 exorad/tasks/foregroundHandler.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/exorad/tasks/foregroundHandler.py b/exorad/tasks/foregroundHandler.py
index 49a12d1..bb46ac6 100644
--- a/exorad/tasks/foregroundHandler.py
+++ b/exorad/tasks/foregroundHandler.py
@@ -155,6 +155,11 @@ class EstimateForegrounds(Task):
         estimateZodi = EstimateZodi()
         estimateForeground = EstimateForeground()
 
+        # drop the estimate of a previous observation of the same target
+        target.foreground = OrderedDict()
+        if hasattr(target, "skyTransmission"):
+            del target.skyTransmission
+
         if isinstance(foregrounds, OrderedDict):
             for foreground in foregrounds:
                 if foreground == "zodiacal":
-- 
2.43.0


From 3080edad00331a2770b1b9cbcd95d70a331feee8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:39 +0000
Subject: [PATCH 06/54] fix: return the default zodiacal model when the fit
 fails

---
 exorad/models/foregrounds/zodiacalForeground.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/exorad/models/foregrounds/zodiacalForeground.py b/exorad/models/foregrounds/zodiacalForeground.py
index 0bacb83..8db5daa 100644
--- a/exorad/models/foregrounds/zodiacalForeground.py
+++ b/exorad/models/foregrounds/zodiacalForeground.py
@@ -51,7 +51,7 @@ class ZodiacalFrg(Logger):
                 A = self.zodiacal_fit_direction(coordinates, map_file)
             except (KeyError, OSError):
                 self.warning("zodiacal fit failed")
-                self._get_radiance(coordinates=None)
+                return self._get_radiance(coordinates=None)
 
         elif "zodiacFactor" in self.description:
             self.debug(" model used for zodiacal foreground")
-- 
2.43.0


From 2fcafaa80e9127cf6ca7f2b8093b0b20da1db68d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:39 +0000
Subject: [PATCH 07/54] fix: leave skipped targets out of the observed targets

---
 exorad/tasks/targetHandler.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/exorad/tasks/targetHandler.py b/exorad/tasks/targetHandler.py
index b1000ff..004055d 100644
--- a/exorad/tasks/targetHandler.py
+++ b/exorad/tasks/targetHandler.py
@@ -389,14 +389,16 @@ class ObserveTargetlist(Task):
                     repeat(out_dir),
                     repeat(debug),
                 ):
-                    outputDict[t_name] = output
+                    if t_name is not None:
+                        outputDict[t_name] = output
         else:
             outputDict = {}
             for target in targets:
                 t_name, output = pipeline_to_dict(
                     target, payload, channels, wl_range, plot, out_dir, debug
                 )
-                outputDict[t_name] = output
+                if t_name is not None:
+                    outputDict[t_name] = output
 
         self.set_output(outputDict)
 
-- 
2.43.0


From 08e8b64dca3386b9cd4d622282aa7f3f08a02d2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:39 +0000
Subject: [PATCH 08/54] fix: observe targets when the payload has no
 foregrounds

---
 exorad/tasks/targetHandler.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/exorad/tasks/targetHandler.py b/exorad/tasks/targetHandler.py
index 004055d..8f82f98 100644
--- a/exorad/tasks/targetHandler.py
+++ b/exorad/tasks/targetHandler.py
@@ -250,7 +250,9 @@ class ObserveTarget(Task):
                 target=target,
                 wl_range=(wl_min, wl_max),
             )
-        target = propagateForegroundLight(channels=channels, target=target)
+            target = propagateForegroundLight(
+                channels=channels, target=target
+            )
 
         target, sed = loadSource(
             target=target,
-- 
2.43.0


From bb13bcc812eb5741ba350d629b1b7c7bd06fdab2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:39 +0000
Subject: [PATCH 09/54] fix: build and observe with payloads that do not set
 ForceChannelWlEdge

---
 exorad/models/instruments/instrument.py   | 11 ++++++++++-
 exorad/models/instruments/photometer.py   |  2 +-
 exorad/models/instruments/spectrometer.py |  2 +-
 3 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/exorad/models/instruments/instrument.py b/exorad/models/instruments/instrument.py
index 6acfb56..01d3114 100644
--- a/exorad/models/instruments/instrument.py
+++ b/exorad/models/instruments/instrument.py
@@ -266,7 +266,7 @@ class Instrument(Logger):
             self.table["RightBinEdge"],
         )
 
-        if self.payload["optics"]["ForceChannelWlEdge"]["value"]:
+        if self._force_channel_wl_edge():
             self.debug("force channel wl edge enabled")
             idx = np.logical_or(
                 self.table["Wavelength"]
@@ -294,6 +294,15 @@ class Instrument(Logger):
         self.debug("transmission in channel : {}".format(transmission))
         return transmission, transmission_data
 
+    def _force_channel_wl_edge(self):
+        """
+        tells if the channel light must be cut at the channel wavelength edges. Default is False
+        """
+        optics = self.payload["optics"]
+        if "ForceChannelWlEdge" in optics:
+            return optics["ForceChannelWlEdge"]["value"]
+        return False
+
     def _get_qe(self):
         if "datafile" in self.description["detector"]["qe"]:
             self.debug("QE data file found")
diff --git a/exorad/models/instruments/photometer.py b/exorad/models/instruments/photometer.py
index 6073d2f..15108f1 100644
--- a/exorad/models/instruments/photometer.py
+++ b/exorad/models/instruments/photometer.py
@@ -139,7 +139,7 @@ class Photometer(Instrument):
         if sky_transmission is not None:
             out["foreground_transmission"] = sky_transmission
 
-        if self.payload["optics"]["ForceChannelWlEdge"]["value"]:
+        if self._force_channel_wl_edge():
             self.debug("force channel wl edge enabled")
             idx = np.logical_or(
                 wl
diff --git a/exorad/models/instruments/spectrometer.py b/exorad/models/instruments/spectrometer.py
index 5a8e0bc..6322d7b 100644
--- a/exorad/models/instruments/spectrometer.py
+++ b/exorad/models/instruments/spectrometer.py
@@ -330,7 +330,7 @@ class Spectrometer(Instrument):
         sky_transmission = self._get_sky_transmission(target)
         if sky_transmission is not None:
             out["foreground_transmission"] = sky_transmission
-        if self.payload["optics"]["ForceChannelWlEdge"]["value"]:
+        if self._force_channel_wl_edge():
             self.debug("force channel wl edge enabled")
             idx = np.logical_or(
                 wl
-- 
2.43.0


From 7eedb016b44cad6a0fc68e01aa54b31f9f53e657 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:11 +0000
Subject: [PATCH 10/54] fix: add the custom noise contributions provided by
 data files

---
 exorad/models/noise.py | 41 ++++++++++++-----------------------------
 1 file changed, 12 insertions(+), 29 deletions(-)

diff --git a/exorad/models/noise.py b/exorad/models/noise.py
index a6f524d..d63cbb5 100644
--- a/exorad/models/noise.py
+++ b/exorad/models/noise.py
@@ -5,7 +5,6 @@ import numpy as np
 from astropy import units as u
 
 from exorad.models.signal import CustomSignal
-from exorad.models.signal import Signal
 
 logger = logging.getLogger("exorad.noise")
 
@@ -172,42 +171,26 @@ def photon_noise_variance(table, out):
 
 
 def add_custom_noise(custom, wl, out):
-    if "data" in custom:
-        col_name = [
-            col for col in custom["data"].keys() if "Wavelength" not in col
-        ]
-        custom_noise = Signal(
-            custom["data"]["Wavelength"], custom["data"][col_name]
-        )
-        custom_noise.spectral_rebin(wl)
-        out["{}_noise".format(col_name)] = custom_noise.data
-        logger.debug(
-            "{} added as custom noise :{}".format(col_name, custom_noise.data)
-        )
-        out["total_noise"] = np.sqrt(
-            out["total_noise"] * out["total_noise"]
-            + custom_noise.data * custom_noise.data
-        )
-
     if isinstance(custom, OrderedDict):
         for contrib in custom:
-            custom_noise = (
-                custom[contrib]["value"]
-                * 1e-6
-                * np.ones(wl.size)
-                * u.hr**0.5
-            )
-            out[
-                "{}_noise".format(custom[contrib]["name"]["value"])
-            ] = custom_noise
+            out = add_custom_noise(custom[contrib], wl, out)
+    elif "data" in custom:
+        data = custom["data"]
+        wl_col = [col for col in data.keys() if "Wavelength" in col][0]
+        for col_name in data.keys():
+            if col_name == wl_col:
+                continue
+            custom_noise = Noise(data[wl_col], data[col_name])
+            custom_noise.spectral_rebin(wl)
+            out["{}_noise".format(col_name)] = custom_noise.data
             logger.debug(
                 "{} added as custom noise :{}".format(
-                    custom[contrib]["name"]["value"], custom_noise
+                    col_name, custom_noise.data
                 )
             )
             out["total_noise"] = np.sqrt(
                 out["total_noise"] * out["total_noise"]
-                + custom_noise * custom_noise
+                + custom_noise.data * custom_noise.data
             )
     else:
         custom_noise = custom["value"] * 1e-6 * np.ones(wl.size) * u.hr**0.5
-- 
2.43.0


From 969e801cba7943fa780a06b2679b4e7ea928cd12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:11 +0000
Subject: [PATCH 11/54] fix: run when the online version cannot be retrieved

---
 exorad/utils/version_control.py | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/exorad/utils/version_control.py b/exorad/utils/version_control.py
index 1a45584..8fdcd4d 100644
--- a/exorad/utils/version_control.py
+++ b/exorad/utils/version_control.py
@@ -47,14 +47,19 @@ class VersionControl(Logger):
             )
         )
         self.debug("package url: {}".format(url))
-        req = requests.get(url)
-        if req.status_code == requests.codes.ok:
-            self.status_code = True
-            req = req.json()
-            content = base64.b64decode(req["content"])
-            content = content.decode("ascii")
-            content = content.splitlines()
-        else:
+        try:
+            req = requests.get(url)
+            if req.status_code == requests.codes.ok:
+                self.status_code = True
+                req = req.json()
+                content = base64.b64decode(req["content"])
+                content = content.decode("utf-8")
+                content = content.splitlines()
+            else:
+                self.status_code = False
+                content = None
+        except (requests.RequestException, ValueError, KeyError) as ex:
+            self.debug("cannot read the online changelog: {}".format(ex))
             self.status_code = False
             content = None
         return content
-- 
2.43.0


From 7e199e2f32dfb14b9aa69f7729220d06cdef352f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:11 +0000
Subject: [PATCH 12/54] fix: list the channels of single channel payloads

---
 exorad/tasks/instrumentHandler.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/exorad/tasks/instrumentHandler.py b/exorad/tasks/instrumentHandler.py
index 6a440ce..4b3d6aa 100644
--- a/exorad/tasks/instrumentHandler.py
+++ b/exorad/tasks/instrumentHandler.py
@@ -358,9 +358,12 @@ class GetChannelList(Task):
 
     def __get_channel_list__(self):
         channel_lst = []
-        for channel in self._opt["channel"].keys():
+        channels = self._opt["channel"]
+        if "channelClass" in channels:
+            channels = {channels["value"]: channels}
+        for channel in channels.keys():
             if (
-                self._opt["channel"][channel]["channelClass"]["value"].lower()
+                channels[channel]["channelClass"]["value"].lower()
                 == self._channel_type.lower()
             ):
                 channel_lst.append(channel)
-- 
2.43.0


From 734272978034cb6916fe64e8e9a9fe4424b4dd7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:11 +0000
Subject: [PATCH 13/54] fix: parse xml elements without text

---
 exorad/tasks/loadOptions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/exorad/tasks/loadOptions.py b/exorad/tasks/loadOptions.py
index 36d71a8..08204af 100644
--- a/exorad/tasks/loadOptions.py
+++ b/exorad/tasks/loadOptions.py
@@ -9,7 +9,7 @@ from astropy.io.ascii.core import InconsistentTableError
 from .task import Task
 from exorad.utils.passVal import PassVal
 
-compactString = lambda string: string.replace("\n", "").strip()
+compactString = lambda string: (string or "").replace("\n", "").strip()
 
 
 class LoadOptions(Task):
-- 
2.43.0


From e469085684bd73b4c6e0938b62d9b74bb1d322fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:11 +0000
Subject: [PATCH 14/54] fix: do not edit the input tables when stacking them

---
 exorad/utils/util.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/exorad/utils/util.py b/exorad/utils/util.py
index d6ff10b..6fc3b5f 100644
--- a/exorad/utils/util.py
+++ b/exorad/utils/util.py
@@ -79,6 +79,7 @@ def to_dict(obj, classkey=None):
 def vstack_tables(table_list):
     table = False
     for tab in table_list:
+        tab = tab.copy()
         if not table:
             table = tab
         else:
-- 
2.43.0


From 55d40a460e825f2b1ddbeb5ae5894f2ad680c7db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:11 +0000
Subject: [PATCH 15/54] fix: warn instead of failing when updating a target
 with an unsupported object

---
 exorad/models/target.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/exorad/models/target.py b/exorad/models/target.py
index 89cace4..159bdb4 100644
--- a/exorad/models/target.py
+++ b/exorad/models/target.py
@@ -38,7 +38,7 @@ class Target(Logger):
             self.star.model = obj.model
             self.debug("target updated")
         else:
-            self.warning("Object type {:s} not implemented".format(type(obj)))
+            self.warning("Object type {} not implemented".format(type(obj)))
 
     def write(self, output):
         targets_out = output.create_group("targets")
-- 
2.43.0


From edc51860cfa66f560809f3e53132ccfd2a99031e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:30 +0000
Subject: [PATCH 16/54] fix: apply the wavelength limits also to elements with
 both transmission and reflectivity

---
 exorad/models/optics/opticalElement.py | 21 ++++++++++-----------
 1 file changed, 10 insertions(+), 11 deletions(-)

diff --git a/exorad/models/optics/opticalElement.py b/exorad/models/optics/opticalElement.py
index dccbb1e..139081a 100644
--- a/exorad/models/optics/opticalElement.py
+++ b/exorad/models/optics/opticalElement.py
@@ -191,20 +191,19 @@ class OpticalElement(Logger):
             )
             # Evaluate the transmission over the wavelength grid
             transmission = tr_func(self.wl)
-        elif "transmission" in self.description and "reflectivity" in self.description:
-            if "use" in self.description:
+        elif "transmission" in self.description or "reflectivity" in self.description:
+            if "transmission" in self.description and "reflectivity" in self.description:
+                if "use" not in self.description:
+                    error_msg = (
+                        "Both transmission and reflectivity are included but 'use' is not indicated"
+                    )
+                    self.error(error_msg)
+                    raise KeyError(error_msg)
                 key = self.description["use"]["value"]
                 transmission = np.ones(self.wl.size) * self.description[key]["value"]
-            else:
-                error_msg = (
-                    "Both transmission and reflectivity are included but 'use' is not indicated"
-                )
-                self.error(error_msg)
-                raise KeyError(error_msg)
-        elif "transmission" in self.description or "reflectivity" in self.description:
-            try:
+            elif "transmission" in self.description:
                 transmission = np.ones(self.wl.size) * self.description["transmission"]["value"]
-            except KeyError:
+            else:
                 transmission = np.ones(self.wl.size) * self.description["reflectivity"]["value"]
                 self.debug(
                     f"Reflectivity keyword found for transmission for {self.name}"
-- 
2.43.0


From 57f785b8d5f3836d3fd1a8ad2a587b2d36546942 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:30 +0000
Subject: [PATCH 17/54] fix: reject data files without a wavelength column

---
 exorad/models/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/exorad/models/utils.py b/exorad/models/utils.py
index 74cbd15..5594e02 100644
--- a/exorad/models/utils.py
+++ b/exorad/models/utils.py
@@ -6,6 +6,6 @@ def get_wl_col_name(data, description=None):
         for wl_key in ["Wavelength", "wavelength"]:
             if wl_key in data.keys():
                 wl_colname = wl_key
-    if wl_key is None:
+    if wl_colname is None:
         raise KeyError("Wavelength column not found in transmission data file")
     return wl_colname
-- 
2.43.0


From 9adfecb85e158787224cd56407e909aff85e1aa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:30 +0000
Subject: [PATCH 18/54] fix: use the wavelength unit for the pixels bandwidth

---
 exorad/models/instruments/spectrometer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/exorad/models/instruments/spectrometer.py b/exorad/models/instruments/spectrometer.py
index 6322d7b..95a7139 100644
--- a/exorad/models/instruments/spectrometer.py
+++ b/exorad/models/instruments/spectrometer.py
@@ -177,7 +177,7 @@ class Spectrometer(Instrument):
                 wl_sol_func(coord_pix_center - 0.5 * delta)
                 - wl_sol_func(coord_pix_center + 0.5 * delta)
             )
-            * delta.unit
+            * wl_solution_data.wl_grid.unit
         )
         self._add_data_to_built("pixel_bandwidth", pixel_bandwidth)
 
-- 
2.43.0


From 150d0c8293010eea277a3b985a93576caf030a9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:46 +0000
Subject: [PATCH 19/54] fix: foregrounds of a previous observation no longer
 affect a payload without foregrounds

---
 exorad/tasks/targetHandler.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/exorad/tasks/targetHandler.py b/exorad/tasks/targetHandler.py
index 8f82f98..51f7955 100644
--- a/exorad/tasks/targetHandler.py
+++ b/exorad/tasks/targetHandler.py
@@ -253,6 +253,11 @@ class ObserveTarget(Task):
             target = propagateForegroundLight(
                 channels=channels, target=target
             )
+        else:
+            # drop the foregrounds of a previous observation of the same target
+            for attribute in ("foreground", "skyTransmission"):
+                if hasattr(target, attribute):
+                    delattr(target, attribute)
 
         target, sed = loadSource(
             target=target,
-- 
2.43.0


From 2fc250ed931f30e1abf8790c8671d4a97749afcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:04 +0000
Subject: [PATCH 20/54] fix: read HDF5 data dictionaries named in option files

load() expects an open HDF5 group but was given the file name.
---
 exorad/tasks/loadOptions.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/exorad/tasks/loadOptions.py b/exorad/tasks/loadOptions.py
index 08204af..064c7b9 100644
--- a/exorad/tasks/loadOptions.py
+++ b/exorad/tasks/loadOptions.py
@@ -207,9 +207,12 @@ class LoadOptions(Task):
     def __read_datadict__(self, datadict):
         ext = os.path.splitext(datadict)[1]
         if ext in [".h5", ".hdf5"]:
+            import h5py
+
             from exorad.output.hdf5 import load
 
-            data = load(datadict)
+            with h5py.File(datadict, "r") as f:
+                data = load(f)
             return data
         elif ext == ".pickle":
             import pickle
-- 
2.43.0


From f854e52d727dd50bfbf4b40c4375c0c623e65570 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:52 +0000
Subject: [PATCH 21/54] fix: keep option file entries that repeat a value

Two entries of the same name and value (two noise sources of 10 ppm) collapsed into one.
---
 exorad/tasks/loadOptions.py | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/exorad/tasks/loadOptions.py b/exorad/tasks/loadOptions.py
index 064c7b9..d510b8b 100644
--- a/exorad/tasks/loadOptions.py
+++ b/exorad/tasks/loadOptions.py
@@ -115,14 +115,15 @@ class LoadOptions(Task):
             if ch.tag in root_dict:
                 # if an other instance of same tag exists, transform into a dict
                 attr = root_dict[ch.tag]
-                if isinstance(attr, OrderedDict):
-                    attr[value] = retval
-                else:
-                    if not isinstance(attr, str):
-                        dtmp = OrderedDict(
-                            [(attr["value"], attr), (value, retval)]
-                        )
-                        root_dict[ch.tag] = dtmp
+                if not isinstance(attr, OrderedDict):
+                    attr = OrderedDict([(attr["value"], attr)])
+                    root_dict[ch.tag] = attr
+                # entries with the same value are kept under distinct keys
+                key, copies = value, 1
+                while key in attr:
+                    copies += 1
+                    key = "{} ({})".format(value, copies)
+                attr[key] = retval
             else:
                 # othewise, set new attr
                 root_dict[ch.tag] = retval
-- 
2.43.0


From 7cc5f34e97f95c7213fdeaa966738cee38d56b8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:19 +0000
Subject: [PATCH 22/54] fix: convert numbers written with a decimal comma in
 MRS target lists

The converted text was checked but never used, so its product with a unit failed.
---
 exorad/models/targetlist.py | 28 ++++++++++++++--------------
 1 file changed, 14 insertions(+), 14 deletions(-)

diff --git a/exorad/models/targetlist.py b/exorad/models/targetlist.py
index 666c2ca..96f9a36 100644
--- a/exorad/models/targetlist.py
+++ b/exorad/models/targetlist.py
@@ -271,15 +271,15 @@ class CSVTargetListMRS(BaseTargetList):
         for i in range(len(self.tmpTab[star_k])):
             val = list(self.tmpTab[star_k][i])
             for n in range(len(val)):
-                if isinstance(val[n], str):
-                    if (
-                        "," in val[n]
-                    ):  # for some reason, comma are used instead of dots sometimes
-                        val[n] = val[n].replace(",", ".")
+                if (
+                    isinstance(val[n], str)
+                    and "name" not in star_k[n].lower()
+                ):
+                    # for some reason, comma are used instead of dots sometimes
                     try:
-                        float(val[n])
+                        val[n] = float(val[n].replace(",", "."))
                     except ValueError:
-                        val[n]
+                        pass
                 if units[n] is not None:
                     val[n] = val[n] * units[n]
             dat.append([str(x) if isinstance(x, np.str_) else x for x in val])
@@ -320,15 +320,15 @@ class CSVTargetListMRS(BaseTargetList):
         for i in range(len(self.tmpTab[planet_k])):
             val = list(self.tmpTab[planet_k][i])
             for n in range(len(val)):
-                if isinstance(val[n], str):
-                    if (
-                        "," in val[n]
-                    ):  # for some reason, comma are used instead of dots sometimes
-                        val[n] = val[n].replace(",", ".")
+                if (
+                    isinstance(val[n], str)
+                    and "name" not in planet_k[n].lower()
+                ):
+                    # for some reason, comma are used instead of dots sometimes
                     try:
-                        float(val[n])
+                        val[n] = float(val[n].replace(",", "."))
                     except ValueError:
-                        val[n]
+                        pass
                 if units[n] is not None:
                     val[n] = val[n] * units[n]
             dat.append([str(x) if isinstance(x, np.str_) else x for x in val])
-- 
2.43.0


From 7a4d5bd750225e4ea8a712ebfe732532e387bb68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:19 +0000
Subject: [PATCH 23/54] fix: search targets in lists without planets

searchTarget looked at target.planet, which does not exist for a list of stars.
---
 exorad/models/targetlist.py | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/exorad/models/targetlist.py b/exorad/models/targetlist.py
index 96f9a36..20ce922 100644
--- a/exorad/models/targetlist.py
+++ b/exorad/models/targetlist.py
@@ -94,9 +94,13 @@ class BaseTargetList(Logger):
         returnList = []
 
         for target in self.target:
-            if re.search(
-                searchName, compactString(str(target.star.name))
-            ) or re.search(searchName, compactString(str(target.planet.name))):
+            names = [target.star.name]
+            if hasattr(target, "planet"):
+                names.append(target.planet.name)
+            if any(
+                re.search(searchName, compactString(str(name)))
+                for name in names
+            ):
                 returnList.append(target)
 
         return returnList
@@ -440,9 +444,13 @@ class OldExcelTargetList(Logger):
         returnList = []
 
         for target in self.target:
-            if re.search(
-                searchName, compactString(str(target.star.name))
-            ) or re.search(searchName, compactString(str(target.planet.name))):
+            names = [target.star.name]
+            if hasattr(target, "planet"):
+                names.append(target.planet.name)
+            if any(
+                re.search(searchName, compactString(str(name)))
+                for name in names
+            ):
                 returnList.append(target)
 
         return returnList
-- 
2.43.0


From 23d5e645dc435fa0155d4d9a5a6e370e3804d617 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:43 +0000
Subject: [PATCH 24/54] fix: reject one dimensional data for a time grid with
 ValueError

The mismatch ended in IndexError instead of the documented ValueError.
---
 exorad/models/signal.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/exorad/models/signal.py b/exorad/models/signal.py
index a5a7706..f3c71c1 100644
--- a/exorad/models/signal.py
+++ b/exorad/models/signal.py
@@ -146,7 +146,10 @@ class Signal(Logger):
             self.error("dimension mismatch between wavelength grid and data")
             raise ValueError
         if self.time_grid.shape[0] > 1 or self.data.ndim > 1:
-            if self.data.shape[1] - self.time_grid.shape[0] != 0:
+            if (
+                self.data.ndim < 2
+                or self.data.shape[1] != self.time_grid.shape[0]
+            ):
                 self.error("dimension mismatch between time grid and data")
                 raise ValueError
 
-- 
2.43.0


From 6be1a9470a8f308c2f1ad8ee2a924dff9944c8f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:52 +0000
Subject: [PATCH 25/54] fix: respect the units of plain table columns in
 signals

A Column in nm was taken as um (and a noise column in s^0.5 as h^0.5).
---
 exorad/models/signal.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/exorad/models/signal.py b/exorad/models/signal.py
index f3c71c1..ba03aa0 100644
--- a/exorad/models/signal.py
+++ b/exorad/models/signal.py
@@ -96,6 +96,13 @@ class Signal(Logger):
             if it cannot convert the original units into the desired ones
 
         """
+        unit = getattr(quantity, "unit", None)
+        if not isinstance(quantity, u.Quantity) and unit not in (
+            None,
+            u.dimensionless_unscaled,
+        ):
+            # a table column that is not a Quantity has its own units
+            quantity = u.Quantity(quantity)
         if isinstance(quantity, u.Quantity):
             if quantity.unit != units:
                 try:
-- 
2.43.0


From 7aa32b498fe779dab73b0a77c38ea600fa200641 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:42 +0000
Subject: [PATCH 26/54] fix: sample the optical path in micron whatever the
 unit of the detector limits

---
 exorad/models/instruments/instrument.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/exorad/models/instruments/instrument.py b/exorad/models/instruments/instrument.py
index 01d3114..1b0dea4 100644
--- a/exorad/models/instruments/instrument.py
+++ b/exorad/models/instruments/instrument.py
@@ -108,10 +108,14 @@ class Instrument(Logger):
         wl_grid = (
             np.logspace(
                 np.log10(
-                    self.description["detector"]["wl_min"]["value"].value
+                    self.description["detector"]["wl_min"]["value"]
+                    .to(u.um)
+                    .value
                 ),
                 np.log10(
-                    self.description["detector"]["cut_off"]["value"].value
+                    self.description["detector"]["cut_off"]["value"]
+                    .to(u.um)
+                    .value
                 ),
                 PassVal.working_R,
             )
-- 
2.43.0


From ef6378845a5edbaf4bca7f7f26d41eb1414a5275 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:42 +0000
Subject: [PATCH 27/54] fix: photometer limits given in a unit other than
 micron

---
 exorad/models/instruments/photometer.py | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/exorad/models/instruments/photometer.py b/exorad/models/instruments/photometer.py
index 15108f1..efc327f 100644
--- a/exorad/models/instruments/photometer.py
+++ b/exorad/models/instruments/photometer.py
@@ -16,14 +16,11 @@ class Photometer(Instrument):
     """
 
     def _wavelength_table(self):
-        wl_c = 0.5 * (
-            self.description["wl_min"]["value"]
-            + self.description["wl_max"]["value"]
-        )
-        bandwidth = (
-            self.description["wl_max"]["value"]
-            - self.description["wl_min"]["value"]
-        )
+        # the channel table is in micron, as every other wavelength grid
+        wl_min = self.description["wl_min"]["value"].to(u.um)
+        wl_max = self.description["wl_max"]["value"].to(u.um)
+        wl_c = 0.5 * (wl_min + wl_max)
+        bandwidth = wl_max - wl_min
         left_bin_edge = wl_c - 0.5 * bandwidth
         right_bin_edge = wl_c + 0.5 * bandwidth
         self.table["chName"] = [self.name]
-- 
2.43.0


From a72d9a49f76a7b87add57cba359bd7c5f9fe537a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:42 +0000
Subject: [PATCH 28/54] fix: photometer aperture in pixels when the pixel size
 is not in micron

---
 exorad/models/instruments/photometer.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/exorad/models/instruments/photometer.py b/exorad/models/instruments/photometer.py
index efc327f..412da50 100644
--- a/exorad/models/instruments/photometer.py
+++ b/exorad/models/instruments/photometer.py
@@ -98,7 +98,7 @@ class Photometer(Instrument):
                     * self.description["Fnum_y"]["value"]
                     * self.table["Wavelength"]
                     / self.description["detector"]["delta_pix"]["value"] ** 2
-                )
+                ).to("")
         elif "EnE" in self.description["aperture"].keys():
             if psf_format == "pixel_based":
                 aper_radius = find_aperture_radius(
@@ -125,7 +125,7 @@ class Photometer(Instrument):
                     * self.description["Fnum_y"]["value"]
                     * self.table["Wavelength"]
                     / self.description["detector"]["delta_pix"]["value"] ** 2
-                )
+                ).to("")
         return window_size_px
 
     def propagate_target(self, target):
-- 
2.43.0


From efc5b1b9d46d0d2cf8f3b97ae99ee22c1d28ef06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:42 +0000
Subject: [PATCH 29/54] fix: spectrometer limits given in a unit other than
 micron

---
 exorad/models/instruments/spectrometer.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/exorad/models/instruments/spectrometer.py b/exorad/models/instruments/spectrometer.py
index 95a7139..022ec51 100644
--- a/exorad/models/instruments/spectrometer.py
+++ b/exorad/models/instruments/spectrometer.py
@@ -60,7 +60,7 @@ class Spectrometer(Instrument):
                     )
                     + 1
                 )
-                wl_bin = self.description["wl_min"]["value"] * (
+                wl_bin = self.description["wl_min"]["value"].to(u.um) * (
                     1.0 + 1.0 / self.description["targetR"]["value"]
                 ) ** np.arange(number_of_spectral_bins)
                 wl_bin_c = 0.5 * (wl_bin[0:-1] + wl_bin[1:])
@@ -71,19 +71,20 @@ class Spectrometer(Instrument):
                 self.description["targetR"]["data"]["value"], sep="\t"
             )
             get_res = interp1d(res_data["W"], res_data["R"])
-            w1 = self.description["wl_min"]["value"].value
+            w1 = self.description["wl_min"]["value"].to(u.um).value
+            wl_max = self.description["wl_max"]["value"].to(u.um).value
             w2 = w1
             wl_bin = np.array([w1])
-            while w2 < self.description["wl_max"]["value"].value:
+            while w2 < wl_max:
                 w1 = w2
                 res = get_res(w1)
                 w2 = np.round((w1 + w1 / res), 4)
                 wl_bin = np.append(wl_bin, w2)
             if (
-                self.description["wl_max"]["value"].value - wl_bin[-2]
+                wl_max - wl_bin[-2]
                 < (wl_bin[-2] - wl_bin[-3]) / 2.0
             ):  # remove small bin at end of channel
-                wl_bin[-2] = self.description["wl_max"]["value"].value
+                wl_bin[-2] = wl_max
                 wl_bin = wl_bin[:-1]
             wl_bin_c = (
                 (np.array(wl_bin[:-1]) + np.array(wl_bin[1:])) / 2 * u.micron
@@ -140,11 +141,11 @@ class Spectrometer(Instrument):
         )
 
         first_pixel = (
-            wl_sol_func_reverse(self.description["wl_min"]["value"])
+            wl_sol_func_reverse(self.description["wl_min"]["value"].to(u.um))
             * wl_solution_data.data.unit
         )
         last_pixel = (
-            wl_sol_func_reverse(self.description["wl_max"]["value"])
+            wl_sol_func_reverse(self.description["wl_max"]["value"].to(u.um))
             * wl_solution_data.data.unit
         )
         self.debug(
-- 
2.43.0


From b10490cf9997ca71a89f4ad340c9f894b82c47ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:42 +0000
Subject: [PATCH 30/54] fix: read encircled energy tables with their wavelength
 unit

---
 exorad/models/instruments/spectrometer.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/exorad/models/instruments/spectrometer.py b/exorad/models/instruments/spectrometer.py
index 022ec51..359bd3c 100644
--- a/exorad/models/instruments/spectrometer.py
+++ b/exorad/models/instruments/spectrometer.py
@@ -251,9 +251,13 @@ class Spectrometer(Instrument):
             # if encircled energy radii are provided, load from file
             # todo define spatial apertures
             self.debug("Encircle energy solution found")
-            EncE_sol = interp1d(
+            EncE_data = Signal(
                 self.description["EncESolution"]["data"]["Wavelength"],
                 self.description["EncESolution"]["data"]["EE"],
+            )
+            EncE_sol = interp1d(
+                EncE_data.wl_grid,
+                EncE_data.data,
                 assume_sorted=False,
                 fill_value="extrapolate",
             )
-- 
2.43.0


From edde2c9fb2b759196905b10868dbef8834a80dba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:42 +0000
Subject: [PATCH 31/54] fix: read optical element tables with their wavelength
 unit

---
 exorad/models/optics/opticalElement.py | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/exorad/models/optics/opticalElement.py b/exorad/models/optics/opticalElement.py
index 139081a..13197a8 100644
--- a/exorad/models/optics/opticalElement.py
+++ b/exorad/models/optics/opticalElement.py
@@ -3,6 +3,7 @@ from astropy import units as u
 from scipy.interpolate import interp1d
 
 from exorad.log import Logger
+from exorad.models.signal import Signal
 from exorad.models.utils import get_wl_col_name
 
 
@@ -182,15 +183,19 @@ class OpticalElement(Logger):
                 self.description["data"], description=self.description
             )
             # Create an interpolation function for transmission
-            tr_func = interp1d(
+            tr_data = Signal(
                 self.description["data"][wl_colname],
                 self.description["data"][colname],
+            )
+            tr_func = interp1d(
+                tr_data.wl_grid,
+                tr_data.data,
                 assume_sorted=False,
                 fill_value=0.0,
                 bounds_error=False,
             )
             # Evaluate the transmission over the wavelength grid
-            transmission = tr_func(self.wl)
+            transmission = tr_func(self.wl.to(u.um))
         elif "transmission" in self.description or "reflectivity" in self.description:
             if "transmission" in self.description and "reflectivity" in self.description:
                 if "use" not in self.description:
@@ -266,15 +271,19 @@ class OpticalElement(Logger):
                 raise KeyError(error_msg)
 
             # Create an interpolation function for emissivity
-            em_func = interp1d(
+            em_data = Signal(
                 self.description["data"][wl_colname],
                 self.description["data"][em_colname],
+            )
+            em_func = interp1d(
+                em_data.wl_grid,
+                em_data.data,
                 assume_sorted=False,
                 fill_value=0.0,
                 bounds_error=False,
             )
             # Evaluate the emissivity over the wavelength grid
-            emissivity = em_func(self.wl)
+            emissivity = em_func(self.wl.to(u.um))
         elif "emissivity" in self.description:
             # Apply a constant emissivity value
             emissivity = np.ones(self.wl.size) * self.description["emissivity"]["value"]
-- 
2.43.0


From eef15f687e16679c8e0fafb548b726c3f2af7c7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:42 +0000
Subject: [PATCH 32/54] fix: extent of pixel based PSFs when the pixel size is
 not in micron

---
 exorad/utils/exolib.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/exorad/utils/exolib.py b/exorad/utils/exolib.py
index 0d0c66d..6433d7a 100644
--- a/exorad/utils/exolib.py
+++ b/exorad/utils/exolib.py
@@ -272,10 +272,10 @@ def binnedPSF(
 
 
 def load_pixel_psf_size(delta_pix, hdr):
-    xmin = [-hdr["NAXIS2"] / 2.0 * delta_pix.value] * u.micron
-    xmax = [hdr["NAXIS2"] / 2.0 * delta_pix.value] * u.micron
-    ymin = [-hdr["NAXIS1"] / 2.0 * delta_pix.value] * u.micron
-    ymax = [hdr["NAXIS1"] / 2.0 * delta_pix.value] * u.micron
+    xmin = [-hdr["NAXIS2"] / 2.0 * delta_pix.to(u.um).value] * u.micron
+    xmax = [hdr["NAXIS2"] / 2.0 * delta_pix.to(u.um).value] * u.micron
+    ymin = [-hdr["NAXIS1"] / 2.0 * delta_pix.to(u.um).value] * u.micron
+    ymax = [hdr["NAXIS1"] / 2.0 * delta_pix.to(u.um).value] * u.micron
     extent = (xmin, xmax, ymin, ymax)
     return extent
 
-- 
2.43.0


From 41a4239232da176a6ef591ad95dfee9e28063877 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:42 +0000
Subject: [PATCH 33/54] fix: stellar wavelength range with limits in different
 units

---
 exorad/tasks/loadSource.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/exorad/tasks/loadSource.py b/exorad/tasks/loadSource.py
index 0e6d14a..6560136 100644
--- a/exorad/tasks/loadSource.py
+++ b/exorad/tasks/loadSource.py
@@ -64,7 +64,7 @@ class LoadSource(Task):
 
         wl_grid = (
             np.logspace(
-                np.log10(wl_min.value),
+                np.log10(wl_min.to(wl_max.unit).value),
                 np.log10(wl_max.value),
                 PassVal.working_R,
             )
-- 
2.43.0


From 35aad1ca933c6f46e7b2a3cf5118c847deeb51ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:11 +0000
Subject: [PATCH 34/54] fix: aperture radius of encircled energies above 0.98
 (never ended) or within the first sampled radius

---
 exorad/utils/exolib.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/exorad/utils/exolib.py b/exorad/utils/exolib.py
index 6433d7a..657ed8f 100644
--- a/exorad/utils/exolib.py
+++ b/exorad/utils/exolib.py
@@ -496,9 +496,11 @@ def find_aperture_radius(ima, eec, Fnum_x, Fnum_y, wavelength):
     ---------
     float
     """
+    if not 0 < eec < 1:
+        raise ValueError("Encircled energy should be between 0 and 1")
     last_enc, i = 0, 0
-    rs, enc = [], []
-    while last_enc < (eec + 0.02):
+    rs, enc = [0], [0.0]
+    while last_enc < eec:
         i += 1
         rs += [i]
         enc += [encircled_energy(i, ima, Fnum_x, Fnum_y, wavelength)]
-- 
2.43.0


From ee6c1f9db2f3af085a41e6d277d088e42d428cfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:36 +0000
Subject: [PATCH 35/54] fix: aperture of an encircled energy in the sampling of
 the PSF image

---
 exorad/models/instruments/photometer.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/exorad/models/instruments/photometer.py b/exorad/models/instruments/photometer.py
index 412da50..42c911a 100644
--- a/exorad/models/instruments/photometer.py
+++ b/exorad/models/instruments/photometer.py
@@ -110,11 +110,15 @@ class Photometer(Instrument):
                 )
                 window_size_px = [np.pi * aper_radius**2 * u.Unit("")]
             else:
+                # the image is sampled in steps of its own, not in microns
+                xmin, xmax, ymin, ymax = self.built_instr["extent"]
+                step_x = ((xmax - xmin) / prf.shape[1]).to(u.um).value
+                step_y = ((ymax - ymin) / prf.shape[0]).to(u.um).value
                 aper_radius = find_aperture_radius(
                     prf,
                     self.description["aperture"]["EnE"]["value"],
-                    self.description["Fnum_x"]["value"],
-                    self.description["Fnum_y"]["value"],
+                    self.description["Fnum_x"]["value"] / step_x,
+                    self.description["Fnum_y"]["value"] / step_y,
                     self.table["Wavelength"],
                 )
                 window_size_px = (
-- 
2.43.0


From 5db8b56175387262312463fb93836461c634470a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:26 +0000
Subject: [PATCH 36/54] fix: stellar spectra when the wavelength range is not
 given in micron

---
 exorad/tasks/loadSource.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/exorad/tasks/loadSource.py b/exorad/tasks/loadSource.py
index 6560136..98a86af 100644
--- a/exorad/tasks/loadSource.py
+++ b/exorad/tasks/loadSource.py
@@ -64,11 +64,11 @@ class LoadSource(Task):
 
         wl_grid = (
             np.logspace(
-                np.log10(wl_min.to(wl_max.unit).value),
-                np.log10(wl_max.value),
+                np.log10(wl_min.to(u.um).value),
+                np.log10(wl_max.to(u.um).value),
                 PassVal.working_R,
             )
-            * wl_max.unit
+            * u.um
         )
 
         if source["value"].lower() == "custom":
-- 
2.43.0


From dccae3a3dbab793000529e056e21dafb6068802b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:46 +0000
Subject: [PATCH 37/54] fix: resampling of samples or grids in decreasing
 wavelength order

---
 exorad/utils/exolib.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/exorad/utils/exolib.py b/exorad/utils/exolib.py
index 657ed8f..0cc3a4e 100644
--- a/exorad/utils/exolib.py
+++ b/exorad/utils/exolib.py
@@ -41,6 +41,11 @@ def rebin(x, xp, fp):
         )
         raise ValueError
 
+    # new grid in decreasing order
+    if np.diff(x).min() < 0 and np.diff(x).max() <= 0:
+        new_x, new_f = rebin(x[::-1], xp, fp)
+        return new_x[::-1], new_f[::-1]
+
     idx = np.where(np.logical_and(xp > 0.9 * x.min(), xp < 1.1 * x.max()))[0]
     xp = xp[idx]
     fp = fp[idx]
@@ -62,6 +67,11 @@ def rebin(x, xp, fp):
         logger.debug("Nans found in new x array: removing it")
         x = np.delete(x, id)
 
+    # samples in increasing order
+    if np.diff(xp).min() < 0:
+        order = np.argsort(xp)
+        xp, fp = xp[order], fp[order]
+
     # remove duplicates
     while np.diff(xp).min() == 0:
         logger.debug("duplicate found in input x array: removing it")
-- 
2.43.0


From 9c5779821d5e770f819ebe8a243d6fcbbac90744 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:18:46 +0000
Subject: [PATCH 38/54] fix: custom source spectra for targets without mass or
 temperature

---
 exorad/tasks/loadSource.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/exorad/tasks/loadSource.py b/exorad/tasks/loadSource.py
index 98a86af..8d19a69 100644
--- a/exorad/tasks/loadSource.py
+++ b/exorad/tasks/loadSource.py
@@ -183,8 +183,10 @@ class LoadSource(Task):
         metadata = {}
 
         metadata["starName"] = star.name
-        metadata["starM"] = star.M
-        metadata["starTeff"] = star.Teff
+        # mass and temperature are not needed by a custom source
+        for key, attr in (("starM", "M"), ("starTeff", "Teff")):
+            if hasattr(star, attr):
+                metadata[key] = getattr(star, attr)
         metadata["starR"] = star.R
         metadata["starDistance"] = star.D
         metadata["starL"] = star.luminosity
-- 
2.43.0


From 127234a6290e717d356fb6a64d472c531ef9fc24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:36:03 +0000
Subject: [PATCH 39/54] fix: number of reads for frame times and read
 frequencies in any unit

---
 exorad/models/noise.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/exorad/models/noise.py b/exorad/models/noise.py
index d63cbb5..fede646 100644
--- a/exorad/models/noise.py
+++ b/exorad/models/noise.py
@@ -68,7 +68,9 @@ def multiaccum(channel, t_frame):
     float
         shot noise gain
     """
-    nRead = np.floor(t_frame * channel["detector"]["freqNDR"]["value"])
+    nRead = np.floor(
+        (t_frame * channel["detector"]["freqNDR"]["value"]).to("")
+    )
 
     if "multiaccumM" in channel["detector"]:
         m = channel["detector"]["multiaccumM"]["value"]
-- 
2.43.0


From 0cc52557ef209decbc5281652d4c1a8522c86d09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:58:58 +0000
Subject: [PATCH 40/54] fix: resampling on a grid of one point (data file noise
 of a photometer)

---
 exorad/utils/exolib.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/exorad/utils/exolib.py b/exorad/utils/exolib.py
index 0cc3a4e..8f52832 100644
--- a/exorad/utils/exolib.py
+++ b/exorad/utils/exolib.py
@@ -42,7 +42,7 @@ def rebin(x, xp, fp):
         raise ValueError
 
     # new grid in decreasing order
-    if np.diff(x).min() < 0 and np.diff(x).max() <= 0:
+    if x.size > 1 and np.diff(x).min() < 0 and np.diff(x).max() <= 0:
         new_x, new_f = rebin(x[::-1], xp, fp)
         return new_x[::-1], new_f[::-1]
 
@@ -79,12 +79,12 @@ def rebin(x, xp, fp):
         xp = np.delete(xp, id)
         fp = np.delete(fp, id)
 
-    while np.diff(x).min() == 0:
+    while x.size > 1 and np.diff(x).min() == 0:
         logger.debug("duplicate found in new x array: removing it")
         id = np.argmin(np.diff(x))
         x = np.delete(x, id)
 
-    if np.diff(xp).max() < np.diff(x).min():
+    if x.size > 1 and np.diff(xp).max() < np.diff(x).min():
         # Binning!
         logger.debug("binning")
         bin_x = 0.5 * (x[1:] + x[:-1])
-- 
2.43.0


From 132d2db3dab690059f4a208e4717d947fbe40e8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:59:35 +0000
Subject: [PATCH 41/54] fix: resampling ignored the samples further than 10%
 from the new grid, leaving zeros where coarse samples should be interpolated

---
 exorad/utils/exolib.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/exorad/utils/exolib.py b/exorad/utils/exolib.py
index 8f52832..ec66613 100644
--- a/exorad/utils/exolib.py
+++ b/exorad/utils/exolib.py
@@ -46,13 +46,9 @@ def rebin(x, xp, fp):
         new_x, new_f = rebin(x[::-1], xp, fp)
         return new_x[::-1], new_f[::-1]
 
-    idx = np.where(np.logical_and(xp > 0.9 * x.min(), xp < 1.1 * x.max()))[0]
-    xp = xp[idx]
-    fp = fp[idx]
-
     if not hasattr(fp, "unit"):
         logger.debug("No units found for fp. Forced to None")
-        fp *= u.Unit()
+        fp = fp * u.Unit()
     funits = fp.unit
 
     # remove NaNs
@@ -68,12 +64,12 @@ def rebin(x, xp, fp):
         x = np.delete(x, id)
 
     # samples in increasing order
-    if np.diff(xp).min() < 0:
+    if xp.size > 1 and np.diff(xp).min() < 0:
         order = np.argsort(xp)
         xp, fp = xp[order], fp[order]
 
     # remove duplicates
-    while np.diff(xp).min() == 0:
+    while xp.size > 1 and np.diff(xp).min() == 0:
         logger.debug("duplicate found in input x array: removing it")
         id = np.argmin(np.diff(xp))
         xp = np.delete(xp, id)
@@ -84,7 +80,11 @@ def rebin(x, xp, fp):
         id = np.argmin(np.diff(x))
         x = np.delete(x, id)
 
-    if x.size > 1 and np.diff(xp).max() < np.diff(x).min():
+    # the steps of the samples around the new grid tell if binning is needed
+    steps = np.diff(
+        xp[np.logical_and(xp > 0.9 * x.min(), xp < 1.1 * x.max())]
+    )
+    if x.size > 1 and steps.size > 0 and steps.max() < np.diff(x).min():
         # Binning!
         logger.debug("binning")
         bin_x = 0.5 * (x[1:] + x[:-1])
-- 
2.43.0


From bf546466e1a720b37ac8c64b92c96ab5bda70f93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:41:37 +0000
Subject: [PATCH 42/54] fix: estimating the maximum signal again counted the
 earlier maximum among the signals

---
 exorad/tasks/targetHandler.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/exorad/tasks/targetHandler.py b/exorad/tasks/targetHandler.py
index 51f7955..4a18f07 100644
--- a/exorad/tasks/targetHandler.py
+++ b/exorad/tasks/targetHandler.py
@@ -175,7 +175,11 @@ class EstimateMaxSignal(Task):
         self.info("estimating max signal in pixel")
         target = self.get_task_param("target")
         table = target.table
-        signals = [key for key in table.keys() if "Max" in key]
+        signals = [
+            key
+            for key in table.keys()
+            if "Max" in key and key != "MaxSignal_inPixel"
+        ]
         max_signal = np.zeros(table["Wavelength"].size) * u.count / u.s
         for key in signals:
             max_signal += table[key]
-- 
2.43.0


From 533f8cbe0d6999b672088fc171a276e104d70564 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:41:37 +0000
Subject: [PATCH 43/54] fix: estimating the noise again took the noise columns
 of the earlier estimate for signals

---
 exorad/models/noise.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/exorad/models/noise.py b/exorad/models/noise.py
index fede646..af92de3 100644
--- a/exorad/models/noise.py
+++ b/exorad/models/noise.py
@@ -128,7 +128,11 @@ def photon_noise(table, channel, shot_gain, out):
     """
     name = channel["value"]
 
-    signals = [key for key in table.keys() if "signal" in key]
+    signals = [
+        key
+        for key in table.keys()
+        if "signal" in key and not key.endswith("_noise")
+    ]
     for key in signals:
         noise_key = "{}_noise".format(key)
         out[noise_key] = (
@@ -162,7 +166,11 @@ def photon_noise_variance(table, out):
         sum of photon variances
     """
     '''
-    signals = [key for key in table.keys() if "signal" in key]
+    signals = [
+        key
+        for key in table.keys()
+        if "signal" in key and not key.endswith("_noise")
+    ]
     _photon_noise_variance = (
         np.zeros(out["frameTime"].size) * (u.count / u.s) ** 2 * u.hr
     )
-- 
2.43.0


From ce47564f2b8e9a0a5a5192167475e44c3542710d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:41:37 +0000
Subject: [PATCH 44/54] fix: names of Phoenix models with positive metallicity
 could not be read, and negative ones were read as positive

---
 exorad/models/source.py | 26 +++++++++++++++++---------
 1 file changed, 17 insertions(+), 9 deletions(-)

diff --git a/exorad/models/source.py b/exorad/models/source.py
index f8b2427..21909e1 100755
--- a/exorad/models/source.py
+++ b/exorad/models/source.py
@@ -1,5 +1,6 @@
 import glob
 import os
+import re
 import warnings
 
 import numpy as np
@@ -113,15 +114,22 @@ class Star(Logger):
         sed_name = self.__get_sed_list(path)
         sed_name_cleaned = [os.path.basename(k) for k in sed_name]
 
-        sed_T_list = np.array(
-            [float(name.split("-")[0][3:]) for name in sed_name_cleaned]
-        )
-        sed_Logg_list = np.array(
-            [float(name.split("-")[1]) for name in sed_name_cleaned]
-        )
-        sed_Z_list = np.array(
-            [float(name.split("-")[2][:3]) for name in sed_name_cleaned]
-        )
+        # e.g. lte030-5.0-0.0a+0.0.BT-Settl.spec.fits.gz is for T = 3000 K,
+        # log(g) = +5.0 and [M/H] = -0.0: the name gives -log(g) and the signed
+        # metallicity
+        fields = [
+            re.match(
+                r"lte(\d+\.?\d*)([+-]\d+\.?\d*)([+-]\d+\.?\d*)", name
+            )
+            for name in sed_name_cleaned
+        ]
+        if None in fields:
+            self.error("stellar SED file name not recognised")
+            raise ValueError("stellar SED file name not recognised")
+
+        sed_T_list = np.array([float(field.group(1)) for field in fields])
+        sed_Logg_list = np.array([-float(field.group(2)) for field in fields])
+        sed_Z_list = np.array([float(field.group(3)) for field in fields])
 
         temp_to_find = star_temperature.value / 100
         # if 'HiRes' not in sed_name_cleaned[0]:
-- 
2.43.0


From d86be7f15f1e932056c9ae20c432b8957a4aa00a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:50:52 +0000
Subject: [PATCH 45/54] fix: a light source with "signal" in its name had its
 pixel maximum counted as another source of photon noise

---
 exorad/models/noise.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/exorad/models/noise.py b/exorad/models/noise.py
index af92de3..64077c8 100644
--- a/exorad/models/noise.py
+++ b/exorad/models/noise.py
@@ -131,7 +131,8 @@ def photon_noise(table, channel, shot_gain, out):
     signals = [
         key
         for key in table.keys()
-        if "signal" in key and not key.endswith("_noise")
+        if "signal" in key
+        and not key.endswith(("_noise", "_MaxSignal_inPixel"))
     ]
     for key in signals:
         noise_key = "{}_noise".format(key)
@@ -169,7 +170,8 @@ def photon_noise_variance(table, out):
     signals = [
         key
         for key in table.keys()
-        if "signal" in key and not key.endswith("_noise")
+        if "signal" in key
+        and not key.endswith(("_noise", "_MaxSignal_inPixel"))
     ]
     _photon_noise_variance = (
         np.zeros(out["frameTime"].size) * (u.count / u.s) ** 2 * u.hr
-- 
2.43.0


From 7326d440374b72716c50da3b152d647bb9efa6c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:50:52 +0000
Subject: [PATCH 46/54] fix: a light source with "Max" in its name had its
 signal added to the maximum of the pixels

---
 exorad/tasks/targetHandler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/exorad/tasks/targetHandler.py b/exorad/tasks/targetHandler.py
index 4a18f07..1dd4291 100644
--- a/exorad/tasks/targetHandler.py
+++ b/exorad/tasks/targetHandler.py
@@ -178,7 +178,7 @@ class EstimateMaxSignal(Task):
         signals = [
             key
             for key in table.keys()
-            if "Max" in key and key != "MaxSignal_inPixel"
+            if key.endswith("_MaxSignal_inPixel")
         ]
         max_signal = np.zeros(table["Wavelength"].size) * u.count / u.s
         for key in signals:
-- 
2.43.0


From 657edece4892abb9313a13f1b679c1c1b88e41ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:03:00 +0000
Subject: [PATCH 47/54] fix: stacking tables with texts, flags or unknown first
 cells in columns that others lack

---
 exorad/utils/util.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/exorad/utils/util.py b/exorad/utils/util.py
index 6fc3b5f..90181e6 100644
--- a/exorad/utils/util.py
+++ b/exorad/utils/util.py
@@ -76,6 +76,14 @@ def to_dict(obj, classkey=None):
         return obj
 
 
+def _filler(column, size):
+    """
+    Cells for the column of a table that does not define it: zeros in the units of the column, or empty texts.
+    """
+    cells = np.zeros(size, dtype=column.dtype)
+    return cells if column.unit is None else cells * column.unit
+
+
 def vstack_tables(table_list):
     table = False
     for tab in table_list:
@@ -86,11 +94,11 @@ def vstack_tables(table_list):
             col_name1 = [col for col in table.keys() if col not in tab.keys()]
             if col_name1:
                 for c in col_name1:
-                    tab[c] = np.zeros(len(tab)) * table[c][0]
+                    tab[c] = _filler(table[c], len(tab))
             col_name2 = [col for col in tab.keys() if col not in table.keys()]
             if col_name2:
                 for c in col_name2:
-                    table[c] = np.zeros(len(table)) * tab[c][0]
+                    table[c] = _filler(tab[c], len(table))
             table = vstack([table, tab], join_type="outer")
     return table
 
-- 
2.43.0


From 4b230afb56efadac5fe491212d9c22756a5185d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:03:00 +0000
Subject: [PATCH 48/54] fix: releases since the current version were cut at any
 text containing it, as 2.1.10 or an item

---
 exorad/utils/version_control.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/exorad/utils/version_control.py b/exorad/utils/version_control.py
index 8fdcd4d..fde926f 100644
--- a/exorad/utils/version_control.py
+++ b/exorad/utils/version_control.py
@@ -80,7 +80,7 @@ class VersionControl(Logger):
                     message += line + "\n"
                     new_ver = line[line.find("[") + 1 : line.find("]")]
                     for line_ in self.content[i + 1 :]:
-                        if self.current_version in line_:
+                        if "## [{}]".format(self.current_version) in line_:
                             break
                         elif line_ != "":
                             message += line_ + "\n"
-- 
2.43.0


From 20d5bff5eda1019c7bdeb72601b4bbbb760fdd2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:03:00 +0000
Subject: [PATCH 49/54] fix: searching targets by names with characters special
 to regular expressions

---
 exorad/models/targetlist.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/exorad/models/targetlist.py b/exorad/models/targetlist.py
index 20ce922..64e34eb 100644
--- a/exorad/models/targetlist.py
+++ b/exorad/models/targetlist.py
@@ -1,5 +1,3 @@
-import re
-
 import numpy as np
 import xlrd
 
@@ -98,7 +96,7 @@ class BaseTargetList(Logger):
             if hasattr(target, "planet"):
                 names.append(target.planet.name)
             if any(
-                re.search(searchName, compactString(str(name)))
+                searchName in compactString(str(name))
                 for name in names
             ):
                 returnList.append(target)
@@ -448,7 +446,7 @@ class OldExcelTargetList(Logger):
             if hasattr(target, "planet"):
                 names.append(target.planet.name)
             if any(
-                re.search(searchName, compactString(str(name)))
+                searchName in compactString(str(name))
                 for name in names
             ):
                 returnList.append(target)
-- 
2.43.0


From c77342cd0898fb75225d57754dece97f17cbcf47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:03:00 +0000
Subject: [PATCH 50/54] fix: tables with a dot in their name could not be
 loaded back

---
 exorad/output/hdf5/util.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/exorad/output/hdf5/util.py b/exorad/output/hdf5/util.py
index 3cdc912..25f5ee5 100644
--- a/exorad/output/hdf5/util.py
+++ b/exorad/output/hdf5/util.py
@@ -39,7 +39,9 @@ def recursively_read_dict_contents(input_dict):
         table_keys = [
             elem for elem in new_keys if ".__table_column_meta__" in elem
         ]
-        table_keys = (elem.split(".")[0] for elem in table_keys)
+        table_keys = (
+            elem.split(".__table_column_meta__")[0] for elem in table_keys
+        )
         for k in table_keys:
             table = load_table(input_dict, k)
             input_dict[k] = table
-- 
2.43.0


From ff3665f18d021f12183fa9e474d90e3b874f5e5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:03:00 +0000
Subject: [PATCH 51/54] fix: texts in lists were cut to 64 characters and lost
 their non ASCII characters in the output

---
 exorad/output/hdf5/hdf5.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/exorad/output/hdf5/hdf5.py b/exorad/output/hdf5/hdf5.py
index 1f8c49f..afe0ebb 100644
--- a/exorad/output/hdf5/hdf5.py
+++ b/exorad/output/hdf5/hdf5.py
@@ -127,9 +127,10 @@ class HDF5OutputGroup(OutputGroup):
         return HDF5OutputGroup(entry)
 
     def write_string_array(self, string_name, string_array, metadata=None):
-        asciiList = [n.encode("ascii", "ignore") for n in string_array]
+        encoded = [n.encode("utf-8") for n in string_array]
+        width = max([64] + [len(n) for n in encoded])
         ds = self._entry.create_dataset(
-            str(string_name), (len(asciiList), 1), "S64", asciiList
+            str(string_name), (len(encoded), 1), "S{}".format(width), encoded
         )
 
         if metadata:
-- 
2.43.0


From f011986370d8aeed01994065ab433e8db3ff5b5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:28:58 +0000
Subject: [PATCH 52/54] fix: texts with an underscore in option files were read
 as numbers

---
 exorad/tasks/loadOptions.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/exorad/tasks/loadOptions.py b/exorad/tasks/loadOptions.py
index d510b8b..1a401ca 100644
--- a/exorad/tasks/loadOptions.py
+++ b/exorad/tasks/loadOptions.py
@@ -79,9 +79,12 @@ class LoadOptions(Task):
             value = compactString(ch.text)
             if (value is not None) and (value != ""):
                 try:
+                    if "_" in value:
+                        # python reads "2024_01" as a number
+                        raise ValueError
                     value = int(value)
                 except ValueError:
-                    if value.replace(".", ""):
+                    if value.replace(".", "") and "_" not in value:
                         try:
                             value = float(value)
                         except ValueError:
-- 
2.43.0


From 74364969875545f2535c230a281770ac15a724c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:33:11 +0000
Subject: [PATCH 53/54] fix: asking for plots without an output directory
 dropped every target

---
 exorad/tasks/targetHandler.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/exorad/tasks/targetHandler.py b/exorad/tasks/targetHandler.py
index 1dd4291..c5127ce 100644
--- a/exorad/tasks/targetHandler.py
+++ b/exorad/tasks/targetHandler.py
@@ -311,9 +311,10 @@ def pipeline_to_dict(
             matplotlib.use("Agg")
             plotter = Plotter(input_table=target.table)
             plotter.plot_table()
-            plotter.save_fig(
-                os.path.join(out_dir, "{}.png".format(target.name))
-            )
+            if out_dir is not None:
+                plotter.save_fig(
+                    os.path.join(out_dir, "{}.png".format(target.name))
+                )
             plt.close()
         return target.name, outputDict
     except:
-- 
2.43.0


From ccd328b57ba22b40cbc3fd774ebd23700d84e756 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:33:47 +0000
Subject: [PATCH 54/54] fix: ranges of targets written as documented (0:1) were
 not understood by exorad-plot

---
 exorad/utils/util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/exorad/utils/util.py b/exorad/utils/util.py
index 90181e6..125207a 100644
--- a/exorad/utils/util.py
+++ b/exorad/utils/util.py
@@ -116,7 +116,7 @@ def parse_range(inp, avail_values):
         start = None
         end = None
         try:
-            s = a.split("-")
+            s = a.replace(":", "-").split("-")
             start = int(s[0])
             end = int(s[1])
             end += 1
-- 
2.43.0

