From 3adce29bb3c77174acc9848ffcbf401a4addb4b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:02 +0000
Subject: [PATCH 01/32] fix: copies of trimmed or padded records keep delay and
 multiple

Copying a record trimmed to start after the trigger raised ValueError
(positive delay), and copies of padded records lost their frequency
multiple.
---
 swprocess/activetimeseries.py | 840 +++++++++++++++++-----------------
 swprocess/sensor1c.py         | 596 ++++++++++++------------
 2 files changed, 721 insertions(+), 715 deletions(-)

diff --git a/swprocess/activetimeseries.py b/swprocess/activetimeseries.py
index 0502f72..97724e1 100644
--- a/swprocess/activetimeseries.py
+++ b/swprocess/activetimeseries.py
@@ -1,417 +1,423 @@
-# This file is part of swprocess, a Python package for surface wave processing.
-# Copyright (C) 2020 Joseph P. Vantassel (joseph.p.vantassel@gmail.com)
-#
-#     This program is free software: you can redistribute it and/or modify
-#     it under the terms of the GNU General Public License as published by
-#     the Free Software Foundation, either version 3 of the License, or
-#     (at your option) any later version.
-#
-#     This program is distributed in the hope that it will be useful,
-#     but WITHOUT ANY WARRANTY; without even the implied warranty of
-#     MERCHANTABILITY or FITNESS FOR A PARTICULAR PURPOSE.  See the
-#     GNU General Public License for more details.
-#
-#     You should have received a copy of the GNU General Public License
-#     along with this program.  If not, see <https: //www.gnu.org/licenses/>.
-
-"""ActiveTimeSeries class definition."""
-
-import warnings
-import logging
-
-import numpy as np
-from scipy.signal import correlate
-from sigpropy import TimeSeries
-
-logger = logging.getLogger("swprocess.activetimeseries")
-
-
-class ActiveTimeSeries(TimeSeries):
-    """A class for working with active-source `TimeSeries`.
-
-    Attributes
-    ----------
-    amplitude : ndarray
-        Recording's amplitude, one per sample.
-    dt : float
-        Time step between samples in seconds.
-
-    """
-
-    @staticmethod
-    def _check_input(nstacks, delay):
-        """Check inputs have correct type and values.
-
-        Specifically:
-        1. `nstacks` is an `int` greater than zero.
-        2. `delay` is a `float` less than or equal to zero.
-
-        """
-        nstacks = int(nstacks)
-        if nstacks <= 0:
-            msg = f"nstacks must be greater than zero, not {nstacks}."
-            raise ValueError(msg)
-
-        delay = float(delay)
-        if delay > 0:
-            msg = f"delay must be less than or equal to zero, not {delay}."
-            raise ValueError(msg)
-
-        return (nstacks, delay)
-
-    def __init__(self, amplitude, dt, nstacks=1, delay=0):
-        """Initialize an `ActiveTimeSeries` object.
-
-        Parameters
-        ----------
-        amplitude : array-like
-            Recording's amplitude, one per sample. The first
-            value is associated with `time=0` seconds and the last is
-            associate with `time=(len(amplitude)-1)*dt` seconds.
-        dt : float
-            Time step between samples in seconds.
-        nstacks : int, optional
-            Number of stacks used to produce `amplitude`, default is 1.
-        delay : float, optional
-            Delay to the start of the record in seconds, default is 0.
-
-        Returns
-        -------
-        ActiveTimeSeries
-            Intialized `ActiveTimeSeries` object.
-
-        """
-        super().__init__(amplitude=amplitude, dt=dt)
-        self._nstacks, self._delay = self._check_input(nstacks, delay)
-        self._multiple = 1
-
-    @property
-    def n_stacks(self):
-        warnings.warn("`n_stacks` is deprecated, use `nstacks` instead",
-                      DeprecationWarning)
-        return self._nstacks
-
-    @property
-    def nstacks(self):
-        return self._nstacks
-
-    @property
-    def delay(self):
-        return self._delay
-
-    @property
-    def _df(self):
-        # Internal (i.e., real) df.
-        return super().df
-
-    @property
-    def df(self):
-        # User facing df.
-        return self._df * self.multiple
-
-    @property
-    def multiple(self):
-        return self._multiple
-
-    @property
-    def time(self):
-        """Time vector for `ActiveTimeSeries`."""
-        return super().time + self._delay
-
-    def stack_append(self, timeseries):
-        """Stack (i.e., average) a new timeseries onto the current one.
-
-        Parameters
-        ----------
-        timeseries : ActiveTimeSeries
-            `ActiveTimeSeries` to be stacked onto the current object.
-
-        Returns
-        -------
-        None
-            Updates the attributes `amplitude` and `nstacks`.
-
-        Raises
-        ------
-        ValueError
-            If `timeseries` is not an `ActiveTimeSeries` or
-            it cannot be stacked to the current object (i.e., the two
-            are dissimilar).
-
-        """
-        if not self._is_similar(timeseries, exclude=["nstacks"]):
-            msg = "`timeseries` is incompatible and cannot be stacked."
-            raise ValueError(msg)
-
-        self._amp = (self._amp*self.nstacks +
-                     timeseries._amp*timeseries.nstacks)
-        self._amp /= (self.nstacks + timeseries.nstacks)
-        self._nstacks += timeseries.nstacks
-
-    @classmethod
-    def from_activetimeseries(cls, activetimeseries):
-        return cls(activetimeseries.amplitude,
-                   activetimeseries.dt,
-                   nstacks=activetimeseries.nstacks,
-                   delay=activetimeseries.delay)
-
-    @classmethod
-    def from_trace_seg2(cls, trace):
-        """Initialize from a SEG2 `Trace` object.
-
-        This method is similar to :meth:`ActiveTimeSeries.from_trace`
-        except that it extracts additional information from the `Trace`
-        header. So only use this method if you have a seg2 file and the
-        header information is correct.
-
-        Parameters
-        ----------
-        trace: Trace
-            `Trace` object from a correctly written seg2 file.
-
-        Returns
-        -------
-        ActiveTimeSeries
-            Instantiated with seg2 file.
-
-        """
-        return cls.from_trace(trace=trace,
-                              nstacks=int(trace.stats.seg2.STACK),
-                              delay=float(trace.stats.seg2.DELAY))
-
-    @classmethod
-    def from_trace(cls, trace, nstacks=1, delay=0):
-        """Create `ActiveTimeSeries` from a `Trace` object.
-
-        This method is more general than
-        :meth:`ActiveTimeSeries.from_trace_seg2`,
-        as it does not attempt to extract any metadata from the `Trace`
-        object.
-
-        Parameters
-        ----------
-        trace : Trace
-            Refer to
-            `obspy documentation <https://github.com/obspy/obspy/wiki>`_
-            for more information.
-        nstacks : int, optional
-            Number of stacks the time series represents, default is
-            1, signifying a single unstacked time record.
-        delay : float {<=0.}, optional
-            Denotes the pre-event delay, default is zero, meaning no
-            pre-event noise was recorded.
-
-        Returns
-        -------
-        ActiveTimeSeries
-            Initialized with information from `trace`.
-
-        """
-        return cls(amplitude=trace.data, dt=trace.stats.delta,
-                   nstacks=nstacks, delay=delay)
-
-    def trim(self, start_time, end_time):
-        """Trim in the interval [`start_time`, `end_time`].
-
-        For more information see :meth:`sigpropy.TimeSeries.trim`.
-
-        Parameters
-        ----------
-        start_time : float
-            New time-zero in seconds.
-        end_time : float
-            New end-time in seconds.
-
-        Returns
-        -------
-        None
-            Updates the attributes `nsamples` and `delay`.
-
-        """
-        super().trim(start_time, end_time)
-        self._delay = start_time
-
-    def zero_pad(self, df):
-        """Append zeros to `amp` to achieve a desired frequency step.
-
-        Note for exact results, `1/(df*dt)` must be an integer,
-        otherwise a `df` close to the desired `df` will be returned.
-
-        Parameters
-        ----------
-        df : float
-            Desired frequency step in Hertz.
-
-        Returns
-        -------
-        None
-            Instead modifies attributes: `amp`, `nsamples`, `multiple`.
-
-        Raises
-        ------
-        ValueError
-            If `df` < 0 (i.e., non-positive).
-
-        """
-        df = float(df)
-        logger.info(f"zero_pad(df={df})")
-        self._multiple = 1
-        if df <= 0:
-            raise ValueError(f"df must be positive, currently {df}.")
-
-        new_nsamples_float = 1/(df*self.dt)
-        new_nsamples = int(round(new_nsamples_float))
-        if new_nsamples_float != new_nsamples:
-            msg = "  `1/(df*dt)` is not an integer results will be approximate."
-            logger.warning(msg)
-
-        # If new_nsamples > nsamples, pad zeros.
-        if new_nsamples > self.nsamples:
-            padding = new_nsamples - self.nsamples
-        # If new_nsamples < nsamples, pad zeros to achieve a multiple
-        # of new_nsamples (i.e.,  a fraction of df). After processing,
-        # extract the results at the frequencies of interest.
-        elif new_nsamples < self.nsamples:
-            # If df_old is already an integer of df_new
-            if self.nsamples % new_nsamples == 0:
-                self._multiple = int(self.nsamples/new_nsamples)
-                return
-            # If df_old is not already an integer of df_new, pad existing series.
-            else:
-                padding = new_nsamples - (self.nsamples % new_nsamples)
-                self._multiple = int((self.nsamples + padding) / new_nsamples)
-        # If new_samples == nsamples, do nothing.
-        else:
-            return
-
-        self._amp = np.concatenate((self._amp, np.zeros((1, padding))), axis=1)
-
-    @staticmethod
-    def crosscorr(a, b, correlate_kwargs=None, exclude=("nsamples")):
-        """Cross correlation of two `ActiveTimeSeries` objects.
-
-        Parameters
-        ----------
-        a : ActiveTimeSeries
-            Base `ActiveTimeSeries` to which `b` is correlated.
-        b: ActiveTimeSeries
-            `ActiveTimeSeries` correlated to `a`.
-        correlate_kwargs : dict, optional
-            `dict` of keyword argument for the correlate function, see
-            `scipy.signal.correlate <https://docs.scipy.org/doc/scipy/reference/generated/scipy.signal.correlate.html>`_
-            for details.
-        exclude : tuple, optional
-            `tuple` of attributes to exclude in an is_similar
-            comparison, default is `('nsamples')`.
-
-        Returns
-        -------
-        ndarray
-            Containing the cross correlation.
-
-        """
-        if not a._is_similar(b, exclude=exclude):
-            raise ValueError("`a` and `b` must be similar.")
-
-        if correlate_kwargs is None:
-            correlate_kwargs = {}
-
-        return correlate(a.amplitude, b.amplitude, **correlate_kwargs)
-
-    @staticmethod
-    def crosscorr_shift(a, b, exclude=None):
-        """Shift `b` so that it is maximally corrlated with `a`.
-
-        Parameters
-        ----------
-        a : ActiveTimeSeries
-            `ActiveTimeSeries` to which `b` will be correlated. `a`
-            should be similar to `b`.
-        b : ActiveTimeSeries
-            `ActiveTimeSeries` which will be shifted so that it is
-            maximally correlated with `a`. `b` should be similar to `a`.
-        exclude : tuple, optional
-            `tuple` of attributes to exclude in an is_similar
-            comparison, default is `('nsamples')`.
-
-        Returns
-        -------
-        ndarray
-            Which represents the stack of the correlated and padded `b`
-            onto `a`.
-
-        """
-        corr = ActiveTimeSeries.crosscorr(a, b, exclude=exclude)
-        maxcorr_location = np.argmax(corr)
-        shifts = (maxcorr_location+1)-b.nsamples
-        if shifts > 0:
-            return (shifts, np.concatenate((np.zeros(shifts), b.amplitude[:-shifts])))
-        elif shifts < 0:
-            return (shifts, np.concatenate((b.amplitude[abs(shifts):], np.zeros(abs(shifts)))))
-        else:
-            return (shifts, np.array(b.amplitude))
-
-    @classmethod
-    def from_cross_stack(cls, a, b):
-        """Create `ActiveTimeSeries` from cross-correlation.
-
-        Cross-correlate `b` to `a` and shift `b` such that it is
-        maximally correlated with `a`. Then stack the shifted version
-        of `b` onto `a`.
-
-        Parameters
-        ----------
-        a : ActiveTimeSeries
-            `ActiveTimeSeries` to which `b` will be correlated and
-            stacked. `a` should be similar to `b`.
-        b : ActiveTimeSeries
-            `ActiveTimeSeries` which will be correlated with and stacked
-            onto `a`. `b` should be similar to `a`.
-
-        Return
-        ------
-        ActiveTimeSeries
-            Which represents the correlated and potentially zero-padded
-            `b` stacked onto `a`.
-
-        """
-        obj = cls.from_activetimeseries(a)
-        b_copy = cls.from_activetimeseries(b)
-        _, shifted_amplitude = cls.crosscorr_shift(
-            a, b_copy, exclude=("nsamples", "nstacks"))
-        b_copy._amp = np.expand_dims(shifted_amplitude, axis=0)
-        obj.stack_append(b_copy)
-        return obj
-
-    def _is_similar(self, other, exclude=None):
-        """Check if `other` is similar to `self`."""
-        if exclude is None:
-            exclude = []
-
-        if not isinstance(other, ActiveTimeSeries):
-            return False
-
-        for attr in ["dt", "nstacks", "delay", "nsamples"]:
-            if attr in exclude:
-                continue
-            if getattr(self, attr) != getattr(other, attr):
-                return False
-        return True
-
-    def __eq__(self, other):
-        """Check if `other` is equal to `self`."""
-        if not self._is_similar(other):
-            return False
-
-        if not np.allclose(self.amplitude, other.amplitude):
-            return False
-
-        return True
-
-    def __repr__(self):
-        """Unambiguous representation of the object."""
-        return f"ActiveTimeSeries(dt={self.dt}, amplitude={self.amplitude}, nstacks={self._nstacks}, delay={self._delay})"
-
-    def __str__(self):
-        """Human-readable representation of the object."""
-        return f"ActiveTimeSeries with:\n\tdt={self.dt}\n\tnsamples={self.nsamples}\n\tnstacks={self._nstacks}\n\tdelay={self._delay}"
+# This file is part of swprocess, a Python package for surface wave processing.
+# Copyright (C) 2020 Joseph P. Vantassel (joseph.p.vantassel@gmail.com)
+#
+#     This program is free software: you can redistribute it and/or modify
+#     it under the terms of the GNU General Public License as published by
+#     the Free Software Foundation, either version 3 of the License, or
+#     (at your option) any later version.
+#
+#     This program is distributed in the hope that it will be useful,
+#     but WITHOUT ANY WARRANTY; without even the implied warranty of
+#     MERCHANTABILITY or FITNESS FOR A PARTICULAR PURPOSE.  See the
+#     GNU General Public License for more details.
+#
+#     You should have received a copy of the GNU General Public License
+#     along with this program.  If not, see <https: //www.gnu.org/licenses/>.
+
+"""ActiveTimeSeries class definition."""
+
+import warnings
+import logging
+
+import numpy as np
+from scipy.signal import correlate
+from sigpropy import TimeSeries
+
+logger = logging.getLogger("swprocess.activetimeseries")
+
+
+class ActiveTimeSeries(TimeSeries):
+    """A class for working with active-source `TimeSeries`.
+
+    Attributes
+    ----------
+    amplitude : ndarray
+        Recording's amplitude, one per sample.
+    dt : float
+        Time step between samples in seconds.
+
+    """
+
+    @staticmethod
+    def _check_input(nstacks, delay):
+        """Check inputs have correct type and values.
+
+        Specifically:
+        1. `nstacks` is an `int` greater than zero.
+        2. `delay` is a `float` less than or equal to zero.
+
+        """
+        nstacks = int(nstacks)
+        if nstacks <= 0:
+            msg = f"nstacks must be greater than zero, not {nstacks}."
+            raise ValueError(msg)
+
+        delay = float(delay)
+        if delay > 0:
+            msg = f"delay must be less than or equal to zero, not {delay}."
+            raise ValueError(msg)
+
+        return (nstacks, delay)
+
+    def __init__(self, amplitude, dt, nstacks=1, delay=0):
+        """Initialize an `ActiveTimeSeries` object.
+
+        Parameters
+        ----------
+        amplitude : array-like
+            Recording's amplitude, one per sample. The first
+            value is associated with `time=0` seconds and the last is
+            associate with `time=(len(amplitude)-1)*dt` seconds.
+        dt : float
+            Time step between samples in seconds.
+        nstacks : int, optional
+            Number of stacks used to produce `amplitude`, default is 1.
+        delay : float, optional
+            Delay to the start of the record in seconds, default is 0.
+
+        Returns
+        -------
+        ActiveTimeSeries
+            Intialized `ActiveTimeSeries` object.
+
+        """
+        super().__init__(amplitude=amplitude, dt=dt)
+        self._nstacks, self._delay = self._check_input(nstacks, delay)
+        self._multiple = 1
+
+    @property
+    def n_stacks(self):
+        warnings.warn("`n_stacks` is deprecated, use `nstacks` instead",
+                      DeprecationWarning)
+        return self._nstacks
+
+    @property
+    def nstacks(self):
+        return self._nstacks
+
+    @property
+    def delay(self):
+        return self._delay
+
+    @property
+    def _df(self):
+        # Internal (i.e., real) df.
+        return super().df
+
+    @property
+    def df(self):
+        # User facing df.
+        return self._df * self.multiple
+
+    @property
+    def multiple(self):
+        return self._multiple
+
+    @property
+    def time(self):
+        """Time vector for `ActiveTimeSeries`."""
+        return super().time + self._delay
+
+    def stack_append(self, timeseries):
+        """Stack (i.e., average) a new timeseries onto the current one.
+
+        Parameters
+        ----------
+        timeseries : ActiveTimeSeries
+            `ActiveTimeSeries` to be stacked onto the current object.
+
+        Returns
+        -------
+        None
+            Updates the attributes `amplitude` and `nstacks`.
+
+        Raises
+        ------
+        ValueError
+            If `timeseries` is not an `ActiveTimeSeries` or
+            it cannot be stacked to the current object (i.e., the two
+            are dissimilar).
+
+        """
+        if not self._is_similar(timeseries, exclude=["nstacks"]):
+            msg = "`timeseries` is incompatible and cannot be stacked."
+            raise ValueError(msg)
+
+        self._amp = (self._amp*self.nstacks +
+                     timeseries._amp*timeseries.nstacks)
+        self._amp /= (self.nstacks + timeseries.nstacks)
+        self._nstacks += timeseries.nstacks
+
+    @classmethod
+    def from_activetimeseries(cls, activetimeseries):
+        obj = cls(activetimeseries.amplitude,
+                  activetimeseries.dt,
+                  nstacks=activetimeseries.nstacks)
+        obj._copy_state(activetimeseries)
+        return obj
+
+    def _copy_state(self, other):
+        """Copy state that trim and zero_pad may have set on `other`."""
+        self._delay = other._delay
+        self._multiple = other._multiple
+
+    @classmethod
+    def from_trace_seg2(cls, trace):
+        """Initialize from a SEG2 `Trace` object.
+
+        This method is similar to :meth:`ActiveTimeSeries.from_trace`
+        except that it extracts additional information from the `Trace`
+        header. So only use this method if you have a seg2 file and the
+        header information is correct.
+
+        Parameters
+        ----------
+        trace: Trace
+            `Trace` object from a correctly written seg2 file.
+
+        Returns
+        -------
+        ActiveTimeSeries
+            Instantiated with seg2 file.
+
+        """
+        return cls.from_trace(trace=trace,
+                              nstacks=int(trace.stats.seg2.STACK),
+                              delay=float(trace.stats.seg2.DELAY))
+
+    @classmethod
+    def from_trace(cls, trace, nstacks=1, delay=0):
+        """Create `ActiveTimeSeries` from a `Trace` object.
+
+        This method is more general than
+        :meth:`ActiveTimeSeries.from_trace_seg2`,
+        as it does not attempt to extract any metadata from the `Trace`
+        object.
+
+        Parameters
+        ----------
+        trace : Trace
+            Refer to
+            `obspy documentation <https://github.com/obspy/obspy/wiki>`_
+            for more information.
+        nstacks : int, optional
+            Number of stacks the time series represents, default is
+            1, signifying a single unstacked time record.
+        delay : float {<=0.}, optional
+            Denotes the pre-event delay, default is zero, meaning no
+            pre-event noise was recorded.
+
+        Returns
+        -------
+        ActiveTimeSeries
+            Initialized with information from `trace`.
+
+        """
+        return cls(amplitude=trace.data, dt=trace.stats.delta,
+                   nstacks=nstacks, delay=delay)
+
+    def trim(self, start_time, end_time):
+        """Trim in the interval [`start_time`, `end_time`].
+
+        For more information see :meth:`sigpropy.TimeSeries.trim`.
+
+        Parameters
+        ----------
+        start_time : float
+            New time-zero in seconds.
+        end_time : float
+            New end-time in seconds.
+
+        Returns
+        -------
+        None
+            Updates the attributes `nsamples` and `delay`.
+
+        """
+        super().trim(start_time, end_time)
+        self._delay = start_time
+
+    def zero_pad(self, df):
+        """Append zeros to `amp` to achieve a desired frequency step.
+
+        Note for exact results, `1/(df*dt)` must be an integer,
+        otherwise a `df` close to the desired `df` will be returned.
+
+        Parameters
+        ----------
+        df : float
+            Desired frequency step in Hertz.
+
+        Returns
+        -------
+        None
+            Instead modifies attributes: `amp`, `nsamples`, `multiple`.
+
+        Raises
+        ------
+        ValueError
+            If `df` < 0 (i.e., non-positive).
+
+        """
+        df = float(df)
+        logger.info(f"zero_pad(df={df})")
+        self._multiple = 1
+        if df <= 0:
+            raise ValueError(f"df must be positive, currently {df}.")
+
+        new_nsamples_float = 1/(df*self.dt)
+        new_nsamples = int(round(new_nsamples_float))
+        if new_nsamples_float != new_nsamples:
+            msg = "  `1/(df*dt)` is not an integer results will be approximate."
+            logger.warning(msg)
+
+        # If new_nsamples > nsamples, pad zeros.
+        if new_nsamples > self.nsamples:
+            padding = new_nsamples - self.nsamples
+        # If new_nsamples < nsamples, pad zeros to achieve a multiple
+        # of new_nsamples (i.e.,  a fraction of df). After processing,
+        # extract the results at the frequencies of interest.
+        elif new_nsamples < self.nsamples:
+            # If df_old is already an integer of df_new
+            if self.nsamples % new_nsamples == 0:
+                self._multiple = int(self.nsamples/new_nsamples)
+                return
+            # If df_old is not already an integer of df_new, pad existing series.
+            else:
+                padding = new_nsamples - (self.nsamples % new_nsamples)
+                self._multiple = int((self.nsamples + padding) / new_nsamples)
+        # If new_samples == nsamples, do nothing.
+        else:
+            return
+
+        self._amp = np.concatenate((self._amp, np.zeros((1, padding))), axis=1)
+
+    @staticmethod
+    def crosscorr(a, b, correlate_kwargs=None, exclude=("nsamples")):
+        """Cross correlation of two `ActiveTimeSeries` objects.
+
+        Parameters
+        ----------
+        a : ActiveTimeSeries
+            Base `ActiveTimeSeries` to which `b` is correlated.
+        b: ActiveTimeSeries
+            `ActiveTimeSeries` correlated to `a`.
+        correlate_kwargs : dict, optional
+            `dict` of keyword argument for the correlate function, see
+            `scipy.signal.correlate <https://docs.scipy.org/doc/scipy/reference/generated/scipy.signal.correlate.html>`_
+            for details.
+        exclude : tuple, optional
+            `tuple` of attributes to exclude in an is_similar
+            comparison, default is `('nsamples')`.
+
+        Returns
+        -------
+        ndarray
+            Containing the cross correlation.
+
+        """
+        if not a._is_similar(b, exclude=exclude):
+            raise ValueError("`a` and `b` must be similar.")
+
+        if correlate_kwargs is None:
+            correlate_kwargs = {}
+
+        return correlate(a.amplitude, b.amplitude, **correlate_kwargs)
+
+    @staticmethod
+    def crosscorr_shift(a, b, exclude=None):
+        """Shift `b` so that it is maximally corrlated with `a`.
+
+        Parameters
+        ----------
+        a : ActiveTimeSeries
+            `ActiveTimeSeries` to which `b` will be correlated. `a`
+            should be similar to `b`.
+        b : ActiveTimeSeries
+            `ActiveTimeSeries` which will be shifted so that it is
+            maximally correlated with `a`. `b` should be similar to `a`.
+        exclude : tuple, optional
+            `tuple` of attributes to exclude in an is_similar
+            comparison, default is `('nsamples')`.
+
+        Returns
+        -------
+        ndarray
+            Which represents the stack of the correlated and padded `b`
+            onto `a`.
+
+        """
+        corr = ActiveTimeSeries.crosscorr(a, b, exclude=exclude)
+        maxcorr_location = np.argmax(corr)
+        shifts = (maxcorr_location+1)-b.nsamples
+        if shifts > 0:
+            return (shifts, np.concatenate((np.zeros(shifts), b.amplitude[:-shifts])))
+        elif shifts < 0:
+            return (shifts, np.concatenate((b.amplitude[abs(shifts):], np.zeros(abs(shifts)))))
+        else:
+            return (shifts, np.array(b.amplitude))
+
+    @classmethod
+    def from_cross_stack(cls, a, b):
+        """Create `ActiveTimeSeries` from cross-correlation.
+
+        Cross-correlate `b` to `a` and shift `b` such that it is
+        maximally correlated with `a`. Then stack the shifted version
+        of `b` onto `a`.
+
+        Parameters
+        ----------
+        a : ActiveTimeSeries
+            `ActiveTimeSeries` to which `b` will be correlated and
+            stacked. `a` should be similar to `b`.
+        b : ActiveTimeSeries
+            `ActiveTimeSeries` which will be correlated with and stacked
+            onto `a`. `b` should be similar to `a`.
+
+        Return
+        ------
+        ActiveTimeSeries
+            Which represents the correlated and potentially zero-padded
+            `b` stacked onto `a`.
+
+        """
+        obj = cls.from_activetimeseries(a)
+        b_copy = cls.from_activetimeseries(b)
+        _, shifted_amplitude = cls.crosscorr_shift(
+            a, b_copy, exclude=("nsamples", "nstacks"))
+        b_copy._amp = np.expand_dims(shifted_amplitude, axis=0)
+        obj.stack_append(b_copy)
+        return obj
+
+    def _is_similar(self, other, exclude=None):
+        """Check if `other` is similar to `self`."""
+        if exclude is None:
+            exclude = []
+
+        if not isinstance(other, ActiveTimeSeries):
+            return False
+
+        for attr in ["dt", "nstacks", "delay", "nsamples"]:
+            if attr in exclude:
+                continue
+            if getattr(self, attr) != getattr(other, attr):
+                return False
+        return True
+
+    def __eq__(self, other):
+        """Check if `other` is equal to `self`."""
+        if not self._is_similar(other):
+            return False
+
+        if not np.allclose(self.amplitude, other.amplitude):
+            return False
+
+        return True
+
+    def __repr__(self):
+        """Unambiguous representation of the object."""
+        return f"ActiveTimeSeries(dt={self.dt}, amplitude={self.amplitude}, nstacks={self._nstacks}, delay={self._delay})"
+
+    def __str__(self):
+        """Human-readable representation of the object."""
+        return f"ActiveTimeSeries with:\n\tdt={self.dt}\n\tnsamples={self.nsamples}\n\tnstacks={self._nstacks}\n\tdelay={self._delay}"
diff --git a/swprocess/sensor1c.py b/swprocess/sensor1c.py
index 7b61624..a7709a7 100644
--- a/swprocess/sensor1c.py
+++ b/swprocess/sensor1c.py
@@ -1,298 +1,298 @@
-# This file is part of swprocess, a Python package for surface wave processing.
-# Copyright (C) 2020 Joseph P. Vantassel (joseph.p.vantassel@gmail.com)
-#
-#     This program is free software: you can redistribute it and/or modify
-#     it under the terms of the GNU General Public License as published by
-#     the Free Software Foundation, either version 3 of the License, or
-#     (at your option) any later version.
-#
-#     This program is distributed in the hope that it will be useful,
-#     but WITHOUT ANY WARRANTY; without even the implied warranty of
-#     MERCHANTABILITY or FITNESS FOR A PARTICULAR PURPOSE.  See the
-#     GNU General Public License for more details.
-#
-#     You should have received a copy of the GNU General Public License
-#     along with this program.  If not, see <https: //www.gnu.org/licenses/>.
-
-"""Sensor1C class definition."""
-
-import logging
-import warnings
-
-import numpy as np
-
-from swprocess import ActiveTimeSeries
-
-logger = logging.getLogger(name=__name__)
-
-
-class Sensor1C(ActiveTimeSeries):
-    """Class for single component sensor objects."""
-
-    def _set_position(self, x, y, z):
-        self._x = float(x)
-        self._y = float(y)
-        self._z = float(z)
-
-    def __init__(self, amplitude, dt, x, y, z, nstacks=1, delay=0):
-        """Initialize `Sensor1C`."""
-        super().__init__(amplitude, dt, nstacks=nstacks, delay=delay)
-        self._set_position(x, y, z)
-
-    @property
-    def x(self):
-        return self._x
-
-    @property
-    def y(self):
-        return self._y
-
-    @property
-    def z(self):
-        return self._z
-
-    @classmethod
-    def from_sensor1c(cls, sensor1c):
-        """Create deep copy of an existing `Sensor1C` object."""
-        arg_map = {"amplitude": lambda x: x, "dt": lambda x: x,
-                   "x": float, "y": float, "z": float}
-        args = [opr(getattr(sensor1c, arg)) for arg, opr in arg_map.items()]
-
-        kwarg_map = {"nstacks": int, "delay": float}
-        kwargs = {key: opr(getattr(sensor1c, key))
-                  for key, opr in kwarg_map.items()}
-        return cls(*args, **kwargs)
-
-    @classmethod
-    def from_activetimeseries(cls, activetimeseries, x, y, z):
-        return cls(activetimeseries.amplitude, activetimeseries.dt, x, y, z,
-                   nstacks=activetimeseries.nstacks,
-                   delay=activetimeseries.delay)
-
-    @classmethod
-    def from_trace(cls, trace,
-                   read_header=True, map_x=lambda x: x, map_y=lambda y: y,
-                   nstacks=1, delay=0, x=0, y=0, z=0, format=None):
-        """Create a `Sensor1C` object from a `Trace` object.
-
-        Parameters
-        ----------
-        trace : Trace
-            `Trace` object with attributes `data` and `stats.delta`.
-        read_header : bool
-            Flag to indicate whether the data in the header of the
-            file should be parsed, default is `True` indicating that
-            the header data will be read.
-        map_x, map_y : function, optional
-            Convert x and y coordinates using some function, default
-            is not transformation. Can be useful for converting between
-            coordinate systems.
-        nstacks : int, optional
-            Number of stacks included in the present trace, default
-            is 1 (i.e., no stacking). Ignored if `read_header=True`.
-        delay : float, optional
-            Pre-trigger delay in seconds, default is 0 seconds.
-            Ignored if `read_header=True`.
-        x, y, z : float, optional
-            Receiver's relative position in x, y, and z, default is
-            zero for all components (i.e., the origin). Ignored if
-            `read_header=True`.
-        format : str, optional
-            Define file format, options include {"SEG2", "SU", "SEGY"}.
-
-        Returns
-        -------
-        Sensor1C
-            An initialized `Sensor1C` object.
-
-        Raises
-        ------
-        ValueError
-            If trace type cannot be identified.
-
-        """
-        if format is not None:
-            _format = str(format).upper()
-        else:
-            try:
-                _format = trace.stats._format.upper()
-            except:
-                raise ValueError("Trace type could not be identified.")
-
-        if read_header:
-            if _format == "SEG2":
-                return cls._from_trace_seg2(trace, map_x=map_x, map_y=map_y)
-            elif _format == "SU":
-                return cls._from_trace_su(trace, map_x=map_x, map_y=map_y)
-            elif _format == "SEGY":
-                return cls._from_trace_segy(trace, map_x=map_x, map_y=map_y)
-            else:
-                raise NotImplementedError
-        else:
-            return cls(amplitude=trace.data, dt=trace.stats.delta,
-                       x=x, y=y, z=z, nstacks=nstacks, delay=delay)
-
-    @staticmethod
-    def _safely_get_header(header, name_to_get, default_value, conversion_function):
-        try:
-            value = conversion_function(getattr(header, name_to_get))
-        except:
-            msg = f"Failed to get {name_to_get}, set to {default_value}."
-            warnings.warn(msg)
-            value = default_value
-        return value
-
-    @classmethod
-    def _from_trace_seg2(cls, trace, map_x=lambda x: x, map_y=lambda y: y):
-        """Create a `Sensor1C` object form a SEG2-style `Trace` object.
-
-        Parameters
-        ----------
-        trace : Trace
-            SEG2-style Trace with header information entered correctly.
-        map_x, map_y : function, optional
-            Convert x and y coordinates using some function, default
-            is not transformation. Can be useful for converting between
-            coordinate systems.
-
-        Returns
-        -------
-        Sensor1C
-            An initialized `Sensor1C` object.
-
-        """
-        header = trace.stats.seg2
-
-        return cls.from_trace(trace,
-                              read_header=False,
-                              nstacks=cls._safely_get_header(header, "STACK", 1, int),
-                              delay=cls._safely_get_header(header, "DELAY", 0., float),
-                              x=map_x(cls._safely_get_header(header, "RECEIVER_LOCATION", 0., float)),
-                              y=map_y(0),
-                              z=0)
-
-    @classmethod
-    def _from_trace_su(cls, trace, map_x=lambda x: x, map_y=lambda y: y):
-        """Create a `Sensor1C` object form a SU-style `Trace` object.
-
-        Parameters
-        ----------
-        trace : Trace
-            SU-style trace with header information entered correctly.
-        map_x, map_y : function, optional
-            Convert x and y coordinates using some function, default
-            is not transformation. Can be useful for converting between
-            coordinate systems.
-
-        Returns
-        -------
-        Sensor1C
-            An initialized `Sensor1C` object.
-
-        """
-        header = trace.stats.su.trace_header
-
-        nstack_key = "number_of_horizontally_stacked_traces_yielding_this_trace"
-        nstacks = cls._safely_get_header(header, nstack_key, 1, int)
-        if nstacks == 0:
-            msg = "Resetting nstacks from zero to one."
-            warnings.warn(msg)
-            nstacks = 1
-
-        scaleco = cls._safely_get_header(header, "scalar_to_be_applied_to_all_coordinates", 1, int)
-        if scaleco == 0:
-            msg = "Resetting scale to be applied to all coordinates from zero to one."
-            warnings.warn(msg)
-            scaleco = 1
-
-        int_x = cls._safely_get_header(header, "group_coordinate_x", 0, int)
-        x = int_x / abs(scaleco) if scaleco < 0 else int_x * scaleco
-        x = round(x, -np.sign(scaleco) * int(np.log10(abs(scaleco))))
-
-        int_y = cls._safely_get_header(header, "group_coordinate_y", 0, int)
-        y = int_y / abs(scaleco) if scaleco < 0 else int_x * scaleco
-        y = round(y, -np.sign(scaleco) * int(np.log10(abs(scaleco))))
-
-        return cls.from_trace(trace,
-                              read_header=False,
-                              nstacks=nstacks,
-                              delay=cls._safely_get_header(header, "delay_recording_time", 0, int)/1000,
-                              x=map_x(x),
-                              y=map_y(y),
-                              z=0)
-
-    @classmethod
-    def _from_trace_segy(cls, trace, map_x=lambda x: x, map_y=lambda y: y):
-        """Create a `Sensor1C` object form a SEGY-style `Trace` object.
-
-        Parameters
-        ----------
-        trace : Trace
-            SEGY-style Trace with header information entered correctly.
-        map_x, map_y : function, optional
-            Convert x and y coordinates using some function, default
-            is not transformation. Can be useful for converting between
-            coordinate systems.
-
-        Returns
-        -------
-        Sensor1C
-            An initialized `Sensor1C` object.
-
-        """
-        header = trace.stats.segy.trace_header
-
-        nstack_key = "number_of_horizontally_stacked_traces_yielding_this_trace"
-        nstacks = cls._safely_get_header(header, nstack_key, 1, int)
-        if nstacks == 0:
-            msg = "Resetting nstacks from zero to one."
-            warnings.warn(msg)
-            nstacks = 1
-
-        scaleco = cls._safely_get_header(header, "scalar_to_be_applied_to_all_coordinates", 1, int)
-        if scaleco == 0:
-            msg = "Resetting scale to be applied to all coordinates from zero to one."
-            warnings.warn(msg)
-            scaleco = 1
-
-        int_x = cls._safely_get_header(header, "group_coordinate_x", 0, int)
-        x = int_x / abs(scaleco) if scaleco < 0 else int_x * scaleco
-        x = round(x, -np.sign(scaleco) * int(np.log10(abs(scaleco))))
-
-        int_y = cls._safely_get_header(header, "group_coordinate_y", 0, int)
-        y = int_y / abs(scaleco) if scaleco < 0 else int_x * scaleco
-        y = round(y, -np.sign(scaleco) * int(np.log10(abs(scaleco))))
-
-        return cls.from_trace(trace,
-                              read_header=False,
-                              nstacks=nstacks,
-                              delay=cls._safely_get_header(header, "delay_recording_time", 0, int)/1000,
-                              x=map_x(x),
-                              y=map_y(y),
-                              z=0)
-
-    def _is_similar(self, other, exclude=None):
-        """Check if `other` is similar to `self` though not equal."""
-        if exclude is None:
-            exclude = []
-
-        if not isinstance(other, Sensor1C):
-            return False
-
-        for attr in ["x", "y", "z"]:
-            if attr in exclude:
-                continue
-            if getattr(self, attr) != getattr(other, attr):
-                return False
-
-        if not super()._is_similar(other, exclude=exclude):
-            return False
-
-        return True
-
-    def __eq__(self, other):
-        """Check if `other` is equal to the `Sensor1C`."""
-        if not super().__eq__(other):
-            return False
-
-        return True
+# This file is part of swprocess, a Python package for surface wave processing.
+# Copyright (C) 2020 Joseph P. Vantassel (joseph.p.vantassel@gmail.com)
+#
+#     This program is free software: you can redistribute it and/or modify
+#     it under the terms of the GNU General Public License as published by
+#     the Free Software Foundation, either version 3 of the License, or
+#     (at your option) any later version.
+#
+#     This program is distributed in the hope that it will be useful,
+#     but WITHOUT ANY WARRANTY; without even the implied warranty of
+#     MERCHANTABILITY or FITNESS FOR A PARTICULAR PURPOSE.  See the
+#     GNU General Public License for more details.
+#
+#     You should have received a copy of the GNU General Public License
+#     along with this program.  If not, see <https: //www.gnu.org/licenses/>.
+
+"""Sensor1C class definition."""
+
+import logging
+import warnings
+
+import numpy as np
+
+from swprocess import ActiveTimeSeries
+
+logger = logging.getLogger(name=__name__)
+
+
+class Sensor1C(ActiveTimeSeries):
+    """Class for single component sensor objects."""
+
+    def _set_position(self, x, y, z):
+        self._x = float(x)
+        self._y = float(y)
+        self._z = float(z)
+
+    def __init__(self, amplitude, dt, x, y, z, nstacks=1, delay=0):
+        """Initialize `Sensor1C`."""
+        super().__init__(amplitude, dt, nstacks=nstacks, delay=delay)
+        self._set_position(x, y, z)
+
+    @property
+    def x(self):
+        return self._x
+
+    @property
+    def y(self):
+        return self._y
+
+    @property
+    def z(self):
+        return self._z
+
+    @classmethod
+    def from_sensor1c(cls, sensor1c):
+        """Create deep copy of an existing `Sensor1C` object."""
+        arg_map = {"amplitude": lambda x: x, "dt": lambda x: x,
+                   "x": float, "y": float, "z": float}
+        args = [opr(getattr(sensor1c, arg)) for arg, opr in arg_map.items()]
+
+        obj = cls(*args, nstacks=int(sensor1c.nstacks))
+        obj._copy_state(sensor1c)
+        return obj
+
+    @classmethod
+    def from_activetimeseries(cls, activetimeseries, x, y, z):
+        obj = cls(activetimeseries.amplitude, activetimeseries.dt, x, y, z,
+                  nstacks=activetimeseries.nstacks)
+        obj._copy_state(activetimeseries)
+        return obj
+
+    @classmethod
+    def from_trace(cls, trace,
+                   read_header=True, map_x=lambda x: x, map_y=lambda y: y,
+                   nstacks=1, delay=0, x=0, y=0, z=0, format=None):
+        """Create a `Sensor1C` object from a `Trace` object.
+
+        Parameters
+        ----------
+        trace : Trace
+            `Trace` object with attributes `data` and `stats.delta`.
+        read_header : bool
+            Flag to indicate whether the data in the header of the
+            file should be parsed, default is `True` indicating that
+            the header data will be read.
+        map_x, map_y : function, optional
+            Convert x and y coordinates using some function, default
+            is not transformation. Can be useful for converting between
+            coordinate systems.
+        nstacks : int, optional
+            Number of stacks included in the present trace, default
+            is 1 (i.e., no stacking). Ignored if `read_header=True`.
+        delay : float, optional
+            Pre-trigger delay in seconds, default is 0 seconds.
+            Ignored if `read_header=True`.
+        x, y, z : float, optional
+            Receiver's relative position in x, y, and z, default is
+            zero for all components (i.e., the origin). Ignored if
+            `read_header=True`.
+        format : str, optional
+            Define file format, options include {"SEG2", "SU", "SEGY"}.
+
+        Returns
+        -------
+        Sensor1C
+            An initialized `Sensor1C` object.
+
+        Raises
+        ------
+        ValueError
+            If trace type cannot be identified.
+
+        """
+        if format is not None:
+            _format = str(format).upper()
+        else:
+            try:
+                _format = trace.stats._format.upper()
+            except:
+                raise ValueError("Trace type could not be identified.")
+
+        if read_header:
+            if _format == "SEG2":
+                return cls._from_trace_seg2(trace, map_x=map_x, map_y=map_y)
+            elif _format == "SU":
+                return cls._from_trace_su(trace, map_x=map_x, map_y=map_y)
+            elif _format == "SEGY":
+                return cls._from_trace_segy(trace, map_x=map_x, map_y=map_y)
+            else:
+                raise NotImplementedError
+        else:
+            return cls(amplitude=trace.data, dt=trace.stats.delta,
+                       x=x, y=y, z=z, nstacks=nstacks, delay=delay)
+
+    @staticmethod
+    def _safely_get_header(header, name_to_get, default_value, conversion_function):
+        try:
+            value = conversion_function(getattr(header, name_to_get))
+        except:
+            msg = f"Failed to get {name_to_get}, set to {default_value}."
+            warnings.warn(msg)
+            value = default_value
+        return value
+
+    @classmethod
+    def _from_trace_seg2(cls, trace, map_x=lambda x: x, map_y=lambda y: y):
+        """Create a `Sensor1C` object form a SEG2-style `Trace` object.
+
+        Parameters
+        ----------
+        trace : Trace
+            SEG2-style Trace with header information entered correctly.
+        map_x, map_y : function, optional
+            Convert x and y coordinates using some function, default
+            is not transformation. Can be useful for converting between
+            coordinate systems.
+
+        Returns
+        -------
+        Sensor1C
+            An initialized `Sensor1C` object.
+
+        """
+        header = trace.stats.seg2
+
+        return cls.from_trace(trace,
+                              read_header=False,
+                              nstacks=cls._safely_get_header(header, "STACK", 1, int),
+                              delay=cls._safely_get_header(header, "DELAY", 0., float),
+                              x=map_x(cls._safely_get_header(header, "RECEIVER_LOCATION", 0., float)),
+                              y=map_y(0),
+                              z=0)
+
+    @classmethod
+    def _from_trace_su(cls, trace, map_x=lambda x: x, map_y=lambda y: y):
+        """Create a `Sensor1C` object form a SU-style `Trace` object.
+
+        Parameters
+        ----------
+        trace : Trace
+            SU-style trace with header information entered correctly.
+        map_x, map_y : function, optional
+            Convert x and y coordinates using some function, default
+            is not transformation. Can be useful for converting between
+            coordinate systems.
+
+        Returns
+        -------
+        Sensor1C
+            An initialized `Sensor1C` object.
+
+        """
+        header = trace.stats.su.trace_header
+
+        nstack_key = "number_of_horizontally_stacked_traces_yielding_this_trace"
+        nstacks = cls._safely_get_header(header, nstack_key, 1, int)
+        if nstacks == 0:
+            msg = "Resetting nstacks from zero to one."
+            warnings.warn(msg)
+            nstacks = 1
+
+        scaleco = cls._safely_get_header(header, "scalar_to_be_applied_to_all_coordinates", 1, int)
+        if scaleco == 0:
+            msg = "Resetting scale to be applied to all coordinates from zero to one."
+            warnings.warn(msg)
+            scaleco = 1
+
+        int_x = cls._safely_get_header(header, "group_coordinate_x", 0, int)
+        x = int_x / abs(scaleco) if scaleco < 0 else int_x * scaleco
+        x = round(x, -np.sign(scaleco) * int(np.log10(abs(scaleco))))
+
+        int_y = cls._safely_get_header(header, "group_coordinate_y", 0, int)
+        y = int_y / abs(scaleco) if scaleco < 0 else int_x * scaleco
+        y = round(y, -np.sign(scaleco) * int(np.log10(abs(scaleco))))
+
+        return cls.from_trace(trace,
+                              read_header=False,
+                              nstacks=nstacks,
+                              delay=cls._safely_get_header(header, "delay_recording_time", 0, int)/1000,
+                              x=map_x(x),
+                              y=map_y(y),
+                              z=0)
+
+    @classmethod
+    def _from_trace_segy(cls, trace, map_x=lambda x: x, map_y=lambda y: y):
+        """Create a `Sensor1C` object form a SEGY-style `Trace` object.
+
+        Parameters
+        ----------
+        trace : Trace
+            SEGY-style Trace with header information entered correctly.
+        map_x, map_y : function, optional
+            Convert x and y coordinates using some function, default
+            is not transformation. Can be useful for converting between
+            coordinate systems.
+
+        Returns
+        -------
+        Sensor1C
+            An initialized `Sensor1C` object.
+
+        """
+        header = trace.stats.segy.trace_header
+
+        nstack_key = "number_of_horizontally_stacked_traces_yielding_this_trace"
+        nstacks = cls._safely_get_header(header, nstack_key, 1, int)
+        if nstacks == 0:
+            msg = "Resetting nstacks from zero to one."
+            warnings.warn(msg)
+            nstacks = 1
+
+        scaleco = cls._safely_get_header(header, "scalar_to_be_applied_to_all_coordinates", 1, int)
+        if scaleco == 0:
+            msg = "Resetting scale to be applied to all coordinates from zero to one."
+            warnings.warn(msg)
+            scaleco = 1
+
+        int_x = cls._safely_get_header(header, "group_coordinate_x", 0, int)
+        x = int_x / abs(scaleco) if scaleco < 0 else int_x * scaleco
+        x = round(x, -np.sign(scaleco) * int(np.log10(abs(scaleco))))
+
+        int_y = cls._safely_get_header(header, "group_coordinate_y", 0, int)
+        y = int_y / abs(scaleco) if scaleco < 0 else int_x * scaleco
+        y = round(y, -np.sign(scaleco) * int(np.log10(abs(scaleco))))
+
+        return cls.from_trace(trace,
+                              read_header=False,
+                              nstacks=nstacks,
+                              delay=cls._safely_get_header(header, "delay_recording_time", 0, int)/1000,
+                              x=map_x(x),
+                              y=map_y(y),
+                              z=0)
+
+    def _is_similar(self, other, exclude=None):
+        """Check if `other` is similar to `self` though not equal."""
+        if exclude is None:
+            exclude = []
+
+        if not isinstance(other, Sensor1C):
+            return False
+
+        for attr in ["x", "y", "z"]:
+            if attr in exclude:
+                continue
+            if getattr(self, attr) != getattr(other, attr):
+                return False
+
+        if not super()._is_similar(other, exclude=exclude):
+            return False
+
+        return True
+
+    def __eq__(self, other):
+        """Check if `other` is equal to the `Sensor1C`."""
+        if not super().__eq__(other):
+            return False
+
+        return True
-- 
2.43.0


From 07b1cc042d3d7aea65a9abda01a9e8ca9a31953c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:32 +0000
Subject: [PATCH 02/32] fix: receiver y from SU/SEGY headers uses the y
 coordinate

With a zero or positive coordinate scalar the x coordinate was used.
---
 swprocess/sensor1c.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/swprocess/sensor1c.py b/swprocess/sensor1c.py
index a7709a7..be6f845 100644
--- a/swprocess/sensor1c.py
+++ b/swprocess/sensor1c.py
@@ -210,7 +210,7 @@ class Sensor1C(ActiveTimeSeries):
         x = round(x, -np.sign(scaleco) * int(np.log10(abs(scaleco))))
 
         int_y = cls._safely_get_header(header, "group_coordinate_y", 0, int)
-        y = int_y / abs(scaleco) if scaleco < 0 else int_x * scaleco
+        y = int_y / abs(scaleco) if scaleco < 0 else int_y * scaleco
         y = round(y, -np.sign(scaleco) * int(np.log10(abs(scaleco))))
 
         return cls.from_trace(trace,
@@ -260,7 +260,7 @@ class Sensor1C(ActiveTimeSeries):
         x = round(x, -np.sign(scaleco) * int(np.log10(abs(scaleco))))
 
         int_y = cls._safely_get_header(header, "group_coordinate_y", 0, int)
-        y = int_y / abs(scaleco) if scaleco < 0 else int_x * scaleco
+        y = int_y / abs(scaleco) if scaleco < 0 else int_y * scaleco
         y = round(y, -np.sign(scaleco) * int(np.log10(abs(scaleco))))
 
         return cls.from_trace(trace,
-- 
2.43.0


From 6f190ffd7b8bf7a255ab8f5b9b99f36fdc8f21c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:32 +0000
Subject: [PATCH 03/32] fix: SEGY source with unset coordinate scalar is read
 with scale one

As for SU files and for the receivers; log10(0) raised OverflowError.
---
 swprocess/array1d.py | 1762 +++++++++++++++++++++---------------------
 1 file changed, 883 insertions(+), 879 deletions(-)

diff --git a/swprocess/array1d.py b/swprocess/array1d.py
index 7491c1f..bc540a6 100644
--- a/swprocess/array1d.py
+++ b/swprocess/array1d.py
@@ -1,879 +1,883 @@
-# This file is part of swprocess, a Python package for surface wave processing.
-# Copyright (C) 2020 Joseph P. Vantassel (joseph.p.vantassel@gmail.com)
-#
-#     This program is free software: you can redistribute it and/or modify
-#     it under the terms of the GNU General Public License as published by
-#     the Free Software Foundation, either version 3 of the License, or
-#     (at your option) any later version.
-#
-#     This program is distributed in the hope that it will be useful,
-#     but WITHOUT ANY WARRANTY; without even the implied warranty of
-#     MERCHANTABILITY or FITNESS FOR A PARTICULAR PURPOSE.  See the
-#     GNU General Public License for more details.
-#
-#     You should have received a copy of the GNU General Public License
-#     along with this program.  If not, see <https: //www.gnu.org/licenses/>.
-
-"""Array1D class definition."""
-
-import logging
-import warnings
-
-import numpy as np
-import obspy
-from obspy.io.segy.segy import SEGYTraceHeader
-import matplotlib.pyplot as plt
-from scipy import signal
-
-from swprocess.source import SourceWithSignal
-
-from .interact import ginput_session
-from swprocess import Source, Sensor1C
-
-logger = logging.getLogger("swprocess.array1d")
-
-
-class Array1D():
-    """A class to organize the information for a 1D (linear) array.
-
-    Attributes
-    ----------
-    sensors : list of Sensor1C
-        Sensors which compose the 1D array.
-    source : Source
-        Source for active shot gather.
-
-    """
-
-    @staticmethod
-    def _check_array(sensors, source):
-        example = sensors[0]
-        positions = [example.x]
-
-        # Ensure sensors are "similar"
-        for sensor in sensors[1:]:
-            if not example._is_similar(sensor, exclude=["x", "y", "z"]):
-                raise ValueError("All sensors must be similar.")
-            if sensor.x in positions:
-                raise ValueError("Sensors must have unique x positions.")
-            positions.append(sensor.x)
-
-        # Sort sensors in terms of x from small to large
-        indices = np.argsort(positions)
-        sensors = [sensors[i] for i in indices]
-
-        return (sensors, source)
-
-    def __init__(self, sensors, source):
-        """Initialize from an iterable of `Sensor1C`s and a `Source`.
-
-        Parameters
-        ----------
-        sensors : iterable of Sensor1c
-            Iterable of initialized `Sensor1C` objects.
-        source : Source
-            Initialized `Source` object.
-
-        Returns
-        -------
-        Array1D
-            Initialized `Array1D` object.
-
-        """
-        logger.info("Initializing Array1D")
-        self.sensors, self.source = self._check_array(sensors, source)
-
-    def timeseriesmatrix(self, detrend=False, normalize="none"):
-        """Sensor amplitudes as 2D `ndarray`.
-
-        Parameters
-        ----------
-        detrend : bool, optional
-            Boolean to control whether a linear detrending operation is
-            performed, default is `False` so no detrending is performed.
-        normalize : {"none", "each", "all"}, optional
-            Enable different normalizations to be performed. `"each"`
-            normalizes each traces by its maximum. `"all"` normalizes
-            all traces by the same maximum. Default is `"none"` so no
-            normalization is performed.
-
-        Returns
-        -------
-        ndarray
-            Of shape `(nchannels, nsamples)` where each row is the
-            amplitude of a given sensor.
-
-        """
-        matrix = np.empty((self.nchannels, self[0].nsamples))
-        for i, sensor in enumerate(self.sensors):
-            _amp = sensor.amplitude
-            amp = signal.detrend(_amp) if detrend else _amp
-            amp = amp/np.max(np.abs(amp)) if normalize == "each" else amp
-            matrix[i, :] = amp
-
-        if normalize == "all":
-            matrix /= np.max(np.abs(matrix))
-
-        return matrix
-
-    def position(self, normalize=False):
-        """Array's sensor positions as `list`.
-
-        Parameters
-        ----------
-        normalize : bool, optional
-            Determines whether the array positions are shifted such
-            that the first sensor is located at x=0.
-
-        """
-        if normalize:
-            position_0 = self.sensors[0].x
-            return [sensor.x - position_0 for sensor in self.sensors]
-        else:
-            return [sensor.x for sensor in self.sensors]
-
-    @property
-    def offsets(self):
-        """Receiver offsets relative to source position as `list`."""
-        positions = self.position(normalize=False)
-        offsets = []
-        for position in positions:
-            offsets.append(abs(self.source._x - position))
-        return offsets
-
-    @property
-    def kres(self):
-        """The array's resolution wavenumber."""
-        return np.pi / min(np.diff(self.position()))
-
-    @property
-    def nchannels(self):
-        """Number of `Sensors` in the array."""
-        return len(self.sensors)
-
-    @property
-    def array_center_distance(self):
-        return np.mean(self.offsets)
-
-    @property
-    def spacing(self):
-        position = self.position()
-        min_spacing = min(np.diff(position))
-        max_spacing = max(np.diff(position))
-        if (max_spacing - min_spacing) < 1E-2:
-            return round(min_spacing, 2)
-        else:
-            raise ValueError("spacing undefined for non-equally spaced arrays")
-
-    @property
-    def _source_inside(self):
-        sx = self.source.x
-        position = self.position(normalize=False)
-        return ((sx > position[0]) and (sx < position[-1]))
-
-    def trim(self, start_time, end_time):
-        """Trim time series belonging to each Sensor1C.
-
-        Parameters
-        ----------
-        start_time, end_time: float
-            Desired start time and end time in seconds measured from the
-            point the acquisition system was triggered.
-
-        Returns
-        -------
-        None
-            Updates internal attributes.
-
-        """
-        for sensor in self.sensors:
-            sensor.trim(start_time, end_time)
-
-    def trim_offsets(self, min_offset, max_offset):
-        """Remove sensors outside of the offsets specified.
-
-        Parameters
-        ----------
-        min_offset, max_offset : float
-            Specify the minimum and maximum allowable offset in meters.
-
-        Return
-        ------
-        None
-            Updates internal attributes.
-
-        """
-        sensors = []
-        for offset, sensor in zip(self.offsets, self.sensors):
-            if (offset > min_offset) and (offset < max_offset):
-                sensors.append(sensor)
-
-            if (offset > max_offset):
-                break
-
-        if len(sensors) == 0:
-            msg = "Removing all sensors at offsets between "
-            msg += f"{min_offset} and {max_offset}, results in no sensors."
-            raise ValueError(msg)
-
-        self.sensors = sensors
-
-    def zero_pad(self, df):
-        """Append zero to sensors to achieve a desired frequency step.
-
-        Parameters
-        ----------
-        df : float
-            Desired linear frequency step in Hertz.
-
-        Returns
-        -------
-        None
-            Instead modifies `sensors`.
-
-        """
-        for sensor in self.sensors:
-            sensor.zero_pad(df=df)
-
-    @property
-    def _flip_required(self):
-        return True if self.source.x > self.position(normalize=False)[-1] else False
-
-    def waterfall(self, ax=None, time_ax="y", amplitude_detrend=True,
-                  amplitude_normalization="each", amplitude_scale=None,
-                  position_normalization=False, plot_kwargs=None):
-        """Create waterfall plot for this array setup.
-
-        Parameters
-        ----------
-        ax : Axes, optional
-            Axes on which to plot, default is `None` indicating a
-            `Figure` and `Axes` will be generated on-the-fly.
-        time_ax : {'x', 'y'}, optional
-            Denotes the time axis, 'y' is the default.
-        amplitude_detrend : bool, optional
-            Boolean to control whether a linear detrending operation is
-            performed, default is `False` so no detrending is performed.
-        amplitude_normalization : {"none", "each", "all"}, optional
-            Enable different normalizations including:
-            `"each"` which normalizes each traces by its maximum,
-            `"all"` which normalizes all traces by the same maximum, and
-            `"none"` which perform no normalization, default is
-            `"each"`.
-        amplitude_scale : float, optional
-            Factor by which each trace is multiplied, default is `None`
-            which uses a factor equal to half the average receiver
-            receiver spacing.
-        position_normalization : bool, optional
-            Determines whether the array positions are shifted such
-            that the first sensor is located at x=0.
-        plot_kwargs : None, dict, optional
-            Kwargs for `matplotlib.pyplot.plot <https://matplotlib.org/3.3.1/api/_as_gen/matplotlib.pyplot.plot.html>`_
-            to control the style of each trace, default is `None`.
-
-        Returns
-        -------
-        Tuple
-            Of the form `(fig, ax)` where `fig` is the figure object
-            and `ax` the axes object on which the schematic is plotted,
-            if `ax=None`.
-
-        """
-        # Create axes (if required)
-        ax_was_none = False
-        if ax is None:
-            ax_was_none = True
-            if time_ax == "x":
-                size = (6, 4)
-            elif time_ax == "y":
-                size = (4, 6)
-            else:
-                msg = f"time_ax = {time_ax} not recognized, use 'x' or 'y'."
-                raise ValueError(msg)
-            fig, ax = plt.subplots(figsize=size)
-
-        # Prepare waterfall data.
-        time = self[0].time
-        traces = self.timeseriesmatrix(detrend=amplitude_detrend,
-                                       normalize=amplitude_normalization)
-        positions = self.position(normalize=position_normalization)
-        if amplitude_scale is None:
-            amplitude_scale = np.mean(np.diff(positions))/2
-        for i, position in enumerate(positions):
-            traces[i, :] *= amplitude_scale
-            traces[i, :] += position
-
-        # Allow custom plotting kwargs.
-        if plot_kwargs is None:
-            plot_kwargs = {}
-        default_kwargs = dict(color="b", linewidth=0.5)
-        kwargs = {**default_kwargs, **plot_kwargs}
-
-        # Plot waveforms.
-        if time_ax == "x":
-            for trace in traces:
-                ax.plot(time, trace, **kwargs)
-                kwargs["label"] = None
-        else:
-            for trace in traces:
-                ax.plot(trace, time, **kwargs)
-                kwargs["label"] = None
-
-        dist_ax = "x" if time_ax == "y" else "y"
-        if time_ax == "x":
-            time_tuple = (min(time), max(time))
-        else:
-            time_tuple = (max(time), min(time))
-        getattr(ax, f"set_{time_ax}lim")(time_tuple)
-
-        spacing = positions[1] - positions[0]
-        getattr(ax, f"set_{dist_ax}lim")(positions[0]-spacing,
-                                         positions[-1]+spacing)
-        getattr(ax, "grid")(axis=time_ax, linestyle=":")
-        getattr(ax, f"set_{time_ax}label")("Time (s)")
-        getattr(ax, f"set_{dist_ax}label")("Distance (m)")
-
-        for label in list("xy"):
-            ax.tick_params(label, length=4, width=1, which='major')
-
-        if ax_was_none:
-            fig.tight_layout()
-            return (fig, ax)
-
-    def plot(self, ax=None, sensor_kwargs=None, source_kwargs=None):
-        """Plot a schematic of the `Array1D` object.
-
-        The schematic shows the position of the receivers and source
-        and lists the total number of receivers and their spacing.
-
-        Parameters
-        ----------
-        ax : Axis, optional
-            Axes on which to plot, default is `None` indicating a
-            `Figure` and `Axis` will be generated on-the-fly.
-        sensor_kwargs, source_kwargs : None, dict, optional
-            Kwargs for `matplotlib.pyplot.plot <https://matplotlib.org/3.3.1/api/_as_gen/matplotlib.pyplot.plot.html>`_
-            to control the plotting of the sensors and source,
-            respectively. Default is `None`, indicating the predefined
-            default values will be used.
-
-        Returns
-        -------
-        Tuple
-            Of the form (fig, ax) where `fig` is the figure object and
-            `ax` the axes object on which the schematic is plotted, if
-            `ax=None`.
-
-        """
-        # Create axis on the fly.
-        ax_was_none = False
-        if ax is None:
-            ax_was_none = True
-            fig, ax = plt.subplots(figsize=(6, 2))
-
-        # Plot sensors.
-        xs = [sensor.x for sensor in self.sensors]
-        ys = [sensor.y for sensor in self.sensors]
-        default_sensor_kwargs = dict(marker="^", color="k",
-                                     linestyle="", label="Sensor")
-
-        if sensor_kwargs is None:
-            sensor_kwargs = {}
-        sensor_kwargs = {**default_sensor_kwargs, **sensor_kwargs}
-        ax.plot(xs, ys, **sensor_kwargs)
-
-        # List number of sensors and their spacing.
-        number_txt = f"Number of sensors: {self.nchannels}"
-        try:
-            spacing_txt = f"Sensor spacing: {self.spacing} m."
-        except ValueError:
-            spacing_txt = "Sensor spacing is not constant."
-        source_txt = f"Source @ {round(self.source.x, 2)} m."
-        ax.text(0.03, 0.95, f"{number_txt}\n{spacing_txt}\n{source_txt}",
-                transform=ax.transAxes, va="top", ha="left")
-
-        # Plot source.
-        default_source_kwargs = dict(marker="D", color="b",
-                                     linestyle="", label="Source")
-        if source_kwargs is None:
-            source_kwargs = {}
-        source_kwargs = {**default_source_kwargs, **source_kwargs}
-        ax.plot(self.source.x, self.source.y, **source_kwargs)
-
-        # General figure settings.
-        ymin, ymax = ax.get_ylim()
-        ax.set_ylim([min(ymin, -2), max(ymax, 5)])
-        ax.set_xlabel("Distance (m)")
-        ax.legend()
-
-        # Return figure and axes objects if generated on the fly.
-        if ax_was_none:
-            return (fig, ax)
-
-    def auto_pick_first_arrivals(self, algorithm="threshold",
-                                 **algorithm_kwargs):
-        if algorithm == "threshold":
-            picks = self._pick_on_threshold(**algorithm_kwargs)
-        else:
-            raise NotImplementedError
-        return picks
-
-    def _pick_on_threshold(self, threshold=0.05):
-        """
-
-        Parameters
-        ----------
-        threshold : {0.-1.}, optional
-            Picking threshold as a percent.
-
-        """
-        traces = self.timeseriesmatrix(detrend=True, normalize="each")
-        time = self.sensors[0].time
-
-        times = []
-        for trace in traces:
-            pindices = np.argwhere(abs(trace-np.mean(trace[:10])) > threshold)
-            index = int(pindices.flatten()[0])
-            times.append(time[index])
-
-        return (self.position(), times)
-
-    def manual_pick_first_arrivals(self, waterfall_kwargs=None):
-        """Allow for interactive picking of first arrivals.
-
-        Parameters
-        ----------
-        waterfall_kwargs : dict, optional
-            Dictionary of keyword arguments for
-            meth: `<Array1D.waterfall>`, default is `None` indicating
-            default keyword arguments.
-
-        Returns
-        -------
-        Tuple
-            Of the form (distance, picked_time)
-
-        """
-        if waterfall_kwargs is None:
-            waterfall_kwargs = {}
-
-        _, ax = self.waterfall(**waterfall_kwargs)
-
-        pairs = self._ginput_session(ax, npts=np.inf)
-
-        if ax.get_xlabel() == "Distance (m)":
-            distance, time = pairs
-        else:
-            time, distance = pairs
-
-        return (distance, time)
-
-    @staticmethod
-    def _ginput_session(*args, **kwargs):
-        return ginput_session(*args, **kwargs)
-
-    def interactive_mute(self, mute_location="both", window_kwargs=None,
-                         waterfall_kwargs=None):
-        """Interactively select source window boundary.
-
-        Parameters
-        ----------
-        mute_location : {"before", "after", "both"}, optional
-            Select which part of the record to mute, default is `"both"`
-            indicating two lines defining the source window boundary
-            will be required.
-        window_kwargs : dict, optional
-            Dictionary of keyword arguments defining the signal window,
-            see `scipy.singal.windows.tukey <https://docs.scipy.org/doc/scipy/reference/generated/scipy.signal.windows.tukey.html>`_
-            for available options.
-        waterfall_kwargs : dict, optional
-            Dictionary of keyword arguments defining how the waterfall
-            should be created, see `:meth Array1D.waterfall` for
-            the available options.
-
-        Returns
-        -------
-        tuple
-            Of the form `(signal_start, signal_end)`.
-
-        """
-        # Create waterfall plot.
-        default_waterfall_kwargs = dict(time_ax="y")
-        if waterfall_kwargs is None:
-            waterfall_kwargs = {}
-        waterfall_kwargs = {**default_waterfall_kwargs, **waterfall_kwargs}
-        _, ax = self.waterfall(**waterfall_kwargs)
-
-        # Parse x, y to distance, time
-        def parse(xs, ys, time_ax=waterfall_kwargs["time_ax"]):
-            if time_ax == "y":
-                return ((xs[0], ys[0]), (xs[1], ys[1]))
-            else:
-                return ((ys[0], xs[0]), (ys[1], xs[1]))
-
-        # Define the start of the signal.
-        if (mute_location == "before") or (mute_location == "both"):
-            xs, ys = self._ginput_session(ax, npts=2,
-                                          initial_adjustment=False,
-                                          ask_to_continue=False)
-            ax.plot(xs, ys, color="r", linewidth=0.5)
-            signal_start = parse(xs, ys)
-        else:
-            signal_start = None
-
-        # Define the end of the signal.
-        if (mute_location == "after") or (mute_location == "both"):
-            xs, ys = self._ginput_session(ax, npts=2,
-                                          initial_adjustment=False,
-                                          ask_to_continue=False)
-            ax.plot(xs, ys, color="r", linewidth=0.5)
-            signal_end = parse(xs, ys)
-        else:
-            signal_end = None
-
-        # Perform mute.
-        self.mute(signal_start=signal_start,
-                  signal_end=signal_end,
-                  window_kwargs=window_kwargs)
-
-        return (signal_start, signal_end)
-
-    def mute(self, signal_start=None, signal_end=None, window_kwargs=None):
-        """Mute traces outside of a narrow signal window.
-
-        Parameters
-        ----------
-        signal_start, signal_end : iterable of floats, optional
-            Two points to define start and stop of the narrow signal
-            window of the form
-            `((pt1_dist, pt1_time), (pt2_dist, pt2_time))`, default is
-            `None` .
-        window_kwargs : dict, optional
-            Dictionary of keyword arguments defining the signal window,
-            see `scipy.singal.windows.tukey <https://docs.scipy.org/doc/scipy/reference/generated/scipy.signal.windows.tukey.html>`_
-            for available options.
-
-        Returns
-        -------
-        None
-            Modifies the object internal state.
-
-        """
-        # General variables common to intercept calculations.
-        position = np.array(self.position())
-        dt = self[0].dt
-        delay = self[0].delay
-        ndelay = abs(delay/dt)
-        nsamples = self[0].nsamples
-
-        # Define starting index for each trace.
-        if signal_start is not None:
-            ((x1, t1), (x2, t2)) = signal_start
-            slope = (t2 - t1) / (x2 - x1)
-            times = t1 + slope*(position - x1)
-            start_indices = np.array((times / dt) + ndelay, dtype=int)
-        else:
-            start_indices = np.zeros_like(position, dtype=int)
-
-        # Define stopping index for each trace.
-        if signal_end is not None:
-            ((x1, t1), (x2, t2)) = signal_end
-            slope = (t2 - t1) / (x2 - x1)
-            times = t1 + slope*(position - x1)
-            stop_indices = np.array((times / dt) + ndelay, dtype=int)
-        else:
-            stop_indices = np.ones_like(position, dtype=int) * (nsamples-1)
-
-        # Define default windowing to be Tukey w/ 20% taper (10% on each side).
-        if window_kwargs is None:
-            window_kwargs = dict(alpha=0.2)
-
-        # TODO (jpv): Windowing can be pushed down into Sensor object.
-        # Perform windowing.
-        window = np.zeros(nsamples)
-        for i, (start, stop) in enumerate(zip(start_indices, stop_indices)):
-            window[start:stop] = signal.windows.tukey(stop-start,
-                                                      **window_kwargs)
-            self.sensors[i]._amp *= window
-            window *= 0
-
-    def _flipped_tseries_and_offsets(self):
-        """Timeseriesmatrix and offsets, flipped from near to far."""
-        if self._flip_required:
-            offsets = self.offsets[::-1]
-            tmatrix = np.flipud(self.timeseriesmatrix())
-        else:
-            offsets = self.offsets
-            tmatrix = self.timeseriesmatrix()
-        offsets = np.array(offsets)
-        return (tmatrix, offsets)
-
-    @classmethod
-    def from_files(cls, fnames, map_x=lambda x: x, map_y=lambda y: y, obspy_read_kwargs=None):
-        """Initialize an `Array1D` object from one or more data files.
-
-        This classmethod creates an `Array1D` object by reading the
-        header information in the provided file(s). Each file
-        should contain multiple traces where each trace corresponds to a
-        single receiver. Currently supported file types are SEG2 and SU.
-
-        Parameters
-        ----------
-        fnames : str or iterable
-            File name or iterable of file names. If multiple files
-            are provided the traces are stacked.
-        map_x, map_y : function, optional
-            Convert x and y coordinates using some function, default
-            is not transformation. Can be useful for converting between
-            coordinate systems.
-        obspy_read_kwargs : dict, optional
-            Keyword arguments to be passed to the obspy.read().
-
-        Returns
-        -------
-        Array1D
-            Initialized `Array1d` object.
-
-        Raises
-        ------
-        TypeError
-            If `fnames` is not of type `str` or `iterable`.
-
-        """
-        if isinstance(fnames, str):
-            fnames = [fnames]
-        
-        try:
-            iter(fnames)
-        except TypeError:
-            fnames = [str(fnames)]
-
-        if obspy_read_kwargs is None:
-            obspy_read_kwargs = {}
-
-        # Read traces from first file
-        with warnings.catch_warnings():
-            warnings.simplefilter("ignore")
-            stream = obspy.read(str(fnames[0]), **obspy_read_kwargs)
-
-        # Create array of sensors
-        sensors = []
-        for trace in stream.traces:
-            sensor = Sensor1C.from_trace(trace, map_x=map_x, map_y=map_y)
-            sensors.append(sensor)
-
-        # Define source
-        _format = trace.stats._format
-        if _format == "SEG2":
-            def parse_source(stats):
-                x = float(stats.seg2.SOURCE_LOCATION)
-                return Source(x=map_x(x), y=0, z=0)
-
-        elif _format == "SU":
-            def parse_source(stats):
-                if stats.su.trace_header["coordinate_units"] == 0:
-                    msg = "Coordinate units is unset, assuming length in meters and not degrees minutes seconds."
-                    warnings.warn(msg)
-                elif stats.su.trace_header["coordinate_units"] != 1:
-                    msg = "Coordinate units must be in units of length, not degrees minutes seconds."
-                    raise ValueError(msg)
-
-                scaleco = int(stats.su.trace_header["scalar_to_be_applied_to_all_coordinates"])
-                if scaleco == 0:
-                    msg = "Resetting scale to be applied to all coordinates from zero to one."
-                    warnings.warn(msg)
-                    scaleco = 1
-
-                int_x = int(stats.su.trace_header["source_coordinate_x"])
-                x = int_x / abs(scaleco) if scaleco < 0 else int_x * scaleco
-                x = round(x, -np.sign(scaleco) * int(np.log10(abs(scaleco))))
-
-                int_y = int(stats.su.trace_header["source_coordinate_y"])
-                y = int_y / abs(scaleco) if scaleco < 0 else int_y * scaleco
-                y = round(y, -np.sign(scaleco) * int(np.log10(abs(scaleco))))
-
-                return Source(x=map_x(x), y=map_y(y), z=0)
-
-        elif _format == "SEGY":
-            def parse_source(stats):
-                if stats.segy.trace_header["coordinate_units"] == 0:
-                    msg = "Coordinate units is unset, assuming length in meters and not degrees minutes seconds."
-                    warnings.warn(msg)
-                elif stats.segy.trace_header["coordinate_units"] != 1:
-                    msg = "Coordinate units must be in units of length, not degrees minutes seconds."
-                    raise ValueError(msg)
-
-                scaleco = int(
-                    stats.segy.trace_header["scalar_to_be_applied_to_all_coordinates"])
-
-                int_x = int(stats.segy.trace_header["source_coordinate_x"])
-                x = int_x / abs(scaleco) if scaleco < 0 else int_x * scaleco
-                x = round(x, -np.sign(scaleco) * int(np.log10(abs(scaleco))))
-
-                int_y = int(stats.segy.trace_header["source_coordinate_y"])
-                y = int_y / abs(scaleco) if scaleco < 0 else int_y * scaleco
-                y = round(y, -np.sign(scaleco) * int(np.log10(abs(scaleco))))
-
-                return Source(x=map_x(x), y=map_y(y), z=0)
-
-        source = parse_source(trace.stats)
-        obj = cls(sensors, source)
-
-        # Stack additional traces, if necessary
-        if len(fnames) > 0:
-            for fname in fnames[1:]:
-                with warnings.catch_warnings():
-                    warnings.simplefilter("ignore")
-                    stream = obspy.read(str(fname))
-                nsource = parse_source(stream[0].stats)
-                if nsource != source:
-                    msg = f"fname = {fname} has an incompatible source."
-                    raise ValueError(msg)
-                for sensor, trace in zip(obj.sensors, stream.traces):
-                    new_sensor = Sensor1C.from_trace(trace)
-                    sensor.stack_append(new_sensor)
-
-        return obj
-
-    @classmethod
-    def from_array1d(cls, array1d):
-        """Create a deep copy of an existing `Array1D` object."""
-        sensors = []
-        for _sensor in array1d.sensors:
-            sensors.append(Sensor1C.from_sensor1c(_sensor))
-        source = Source.from_source(array1d.source)
-        obj = cls(sensors, source)
-        return obj
-
-    # su
-    # https://pubs.usgs.gov/of/2001/of01-326/HTML/FILEFORM.HTM
-    # https://wiki.seismic-unix.org/sudoc:su_data_format
-    # http://web.mit.edu/cwpsu_v44r1/sumanual_600dpi_letter.pdf
-
-    # segy
-    # https://sioseis.ucsd.edu/segy.header.html
-    # https://library.seg.org/pb-assets/technical-standards/seg_y_rev2_0-mar2017-1686080998003.pdf
-    def to_file(self, fname, ftype="su"):
-        if ftype != "su":
-            raise ValueError(f"ftype = {ftype} not recognized.")
-
-        stream = obspy.Stream()
-
-        def rint(x): return int(round(x))
-
-        for sensor in self.sensors:
-            trace = obspy.Trace(np.array(sensor.amplitude, dtype=np.float32))
-            trace.stats.delta = sensor.dt
-            trace.stats.starttime = obspy.UTCDateTime(2020, 12, 18, 10, 0, 0)
-
-            if not hasattr(trace.stats, 'su'):
-                trace.stats.su = {}
-            trace.stats.su.trace_header = SEGYTraceHeader()
-            trace.stats.su.trace_header.scalar_to_be_applied_to_all_coordinates = -1000
-            trace.stats.su.trace_header.source_coordinate_x = rint(
-                self.source._x*1000)
-            trace.stats.su.trace_header.source_coordinate_y = rint(
-                self.source._y*1000)
-            trace.stats.su.trace_header.number_of_horizontally_stacked_traces_yielding_this_trace = rint(
-                sensor.nstacks-1)
-            trace.stats.su.trace_header.delay_recording_time = rint(
-                sensor.delay*1000)
-            trace.stats.su.trace_header.group_coordinate_x = rint(
-                sensor.x*1000)
-            trace.stats.su.trace_header.group_coordinate_y = rint(
-                sensor.y*1000)
-            trace.stats.su.trace_header.coordinate_units = 1
-
-            stream.append(trace)
-
-        stream.write(filename=fname, format="SU")
-
-    def is_similar(self, other):
-        """Check if `other` is similar to `self`."""
-        if not isinstance(other, (Array1D,)):
-            return False
-
-        for attr in ["nchannels", "source"]:
-            if getattr(self, attr) != getattr(other, attr):
-                return False
-
-        return True
-
-    def __eq__(self, other):
-        """Define how `other` can be equal to `self`."""
-        if not self.is_similar(other):
-            return False
-
-        for my, ur in zip(self.sensors, other.sensors):
-            if my != ur:
-                return False
-
-        return True
-
-    def __getitem__(self, index):
-        """Select sensor by index."""
-        return self.sensors[index]
-
-
-class Array1DwSource(Array1D):
-
-    def __init__(self, sensors, source):
-        super().__init__(sensors, source)
-
-    @classmethod
-    def from_files(cls, fnames_rec, fnames_src, src_channel,
-                   map_x=lambda x: x, map_y=lambda y: y):
-        _cls = Array1D.from_files(fnames=fnames_rec, map_x=map_x, map_y=map_y)
-
-        # TODO (jpv): Badly assume fnames_src is a properly formatted list.
-        trace = obspy.read(str(fnames_src[0]))[src_channel]
-        dt = trace.meta.delta
-        amp = trace.data
-        for fname in fnames_src[1:]:
-            trace = obspy.read(str(fname))[src_channel]
-            amp += trace.data
-        amp /= len(fnames_src)
-
-        source = SourceWithSignal(_cls.source.x,
-                                  _cls.source.y,
-                                  _cls.source.z,
-                                  amp,
-                                  dt)
-
-        return cls(_cls.sensors, source)
-
-    def xcorrelate(self, vmin=None, vmax=None):
-
-        # TODO (jpv): Check dt for source and signal
-        # TODO (jpv): Size of source and receiver signal
-
-        if vmax is None:
-            vmax = 3000
-
-        if vmin is None:
-            vmin = 50
-
-        min_offset, max_offset = min(self.offsets), max(self.offsets)
-
-        tmin = min_offset/vmax
-        # TODO (jpv): Revisit minimum time add fudge factor for now.
-        idx_dx_tmin = int((tmin-0.5)/self.source.dt)
-
-        tmax = max_offset/vmin
-        idx_dx_tmax = int(tmax/self.source.dt)
-
-        # start correlation at/near zero lag position.
-        src_amp = self.source.amplitude
-        idx_zero = self.source.nsamples
-        idx_min, idx_max = idx_zero+idx_dx_tmin, idx_zero+idx_dx_tmax
-
-        sensors = []
-        for sensor in self.sensors:
-            corr = signal.correlate(sensor.amplitude, src_amp)
-            corr = corr[idx_min:idx_max]
-            sensor = Sensor1C(corr, dt=sensor.dt,
-                              x=sensor.x, y=sensor.y, z=sensor.z,
-                              nstacks=sensor.nstacks, delay=0)
-            sensors.append(sensor)
-
-        self.sensors = sensors
+# This file is part of swprocess, a Python package for surface wave processing.
+# Copyright (C) 2020 Joseph P. Vantassel (joseph.p.vantassel@gmail.com)
+#
+#     This program is free software: you can redistribute it and/or modify
+#     it under the terms of the GNU General Public License as published by
+#     the Free Software Foundation, either version 3 of the License, or
+#     (at your option) any later version.
+#
+#     This program is distributed in the hope that it will be useful,
+#     but WITHOUT ANY WARRANTY; without even the implied warranty of
+#     MERCHANTABILITY or FITNESS FOR A PARTICULAR PURPOSE.  See the
+#     GNU General Public License for more details.
+#
+#     You should have received a copy of the GNU General Public License
+#     along with this program.  If not, see <https: //www.gnu.org/licenses/>.
+
+"""Array1D class definition."""
+
+import logging
+import warnings
+
+import numpy as np
+import obspy
+from obspy.io.segy.segy import SEGYTraceHeader
+import matplotlib.pyplot as plt
+from scipy import signal
+
+from swprocess.source import SourceWithSignal
+
+from .interact import ginput_session
+from swprocess import Source, Sensor1C
+
+logger = logging.getLogger("swprocess.array1d")
+
+
+class Array1D():
+    """A class to organize the information for a 1D (linear) array.
+
+    Attributes
+    ----------
+    sensors : list of Sensor1C
+        Sensors which compose the 1D array.
+    source : Source
+        Source for active shot gather.
+
+    """
+
+    @staticmethod
+    def _check_array(sensors, source):
+        example = sensors[0]
+        positions = [example.x]
+
+        # Ensure sensors are "similar"
+        for sensor in sensors[1:]:
+            if not example._is_similar(sensor, exclude=["x", "y", "z"]):
+                raise ValueError("All sensors must be similar.")
+            if sensor.x in positions:
+                raise ValueError("Sensors must have unique x positions.")
+            positions.append(sensor.x)
+
+        # Sort sensors in terms of x from small to large
+        indices = np.argsort(positions)
+        sensors = [sensors[i] for i in indices]
+
+        return (sensors, source)
+
+    def __init__(self, sensors, source):
+        """Initialize from an iterable of `Sensor1C`s and a `Source`.
+
+        Parameters
+        ----------
+        sensors : iterable of Sensor1c
+            Iterable of initialized `Sensor1C` objects.
+        source : Source
+            Initialized `Source` object.
+
+        Returns
+        -------
+        Array1D
+            Initialized `Array1D` object.
+
+        """
+        logger.info("Initializing Array1D")
+        self.sensors, self.source = self._check_array(sensors, source)
+
+    def timeseriesmatrix(self, detrend=False, normalize="none"):
+        """Sensor amplitudes as 2D `ndarray`.
+
+        Parameters
+        ----------
+        detrend : bool, optional
+            Boolean to control whether a linear detrending operation is
+            performed, default is `False` so no detrending is performed.
+        normalize : {"none", "each", "all"}, optional
+            Enable different normalizations to be performed. `"each"`
+            normalizes each traces by its maximum. `"all"` normalizes
+            all traces by the same maximum. Default is `"none"` so no
+            normalization is performed.
+
+        Returns
+        -------
+        ndarray
+            Of shape `(nchannels, nsamples)` where each row is the
+            amplitude of a given sensor.
+
+        """
+        matrix = np.empty((self.nchannels, self[0].nsamples))
+        for i, sensor in enumerate(self.sensors):
+            _amp = sensor.amplitude
+            amp = signal.detrend(_amp) if detrend else _amp
+            amp = amp/np.max(np.abs(amp)) if normalize == "each" else amp
+            matrix[i, :] = amp
+
+        if normalize == "all":
+            matrix /= np.max(np.abs(matrix))
+
+        return matrix
+
+    def position(self, normalize=False):
+        """Array's sensor positions as `list`.
+
+        Parameters
+        ----------
+        normalize : bool, optional
+            Determines whether the array positions are shifted such
+            that the first sensor is located at x=0.
+
+        """
+        if normalize:
+            position_0 = self.sensors[0].x
+            return [sensor.x - position_0 for sensor in self.sensors]
+        else:
+            return [sensor.x for sensor in self.sensors]
+
+    @property
+    def offsets(self):
+        """Receiver offsets relative to source position as `list`."""
+        positions = self.position(normalize=False)
+        offsets = []
+        for position in positions:
+            offsets.append(abs(self.source._x - position))
+        return offsets
+
+    @property
+    def kres(self):
+        """The array's resolution wavenumber."""
+        return np.pi / min(np.diff(self.position()))
+
+    @property
+    def nchannels(self):
+        """Number of `Sensors` in the array."""
+        return len(self.sensors)
+
+    @property
+    def array_center_distance(self):
+        return np.mean(self.offsets)
+
+    @property
+    def spacing(self):
+        position = self.position()
+        min_spacing = min(np.diff(position))
+        max_spacing = max(np.diff(position))
+        if (max_spacing - min_spacing) < 1E-2:
+            return round(min_spacing, 2)
+        else:
+            raise ValueError("spacing undefined for non-equally spaced arrays")
+
+    @property
+    def _source_inside(self):
+        sx = self.source.x
+        position = self.position(normalize=False)
+        return ((sx > position[0]) and (sx < position[-1]))
+
+    def trim(self, start_time, end_time):
+        """Trim time series belonging to each Sensor1C.
+
+        Parameters
+        ----------
+        start_time, end_time: float
+            Desired start time and end time in seconds measured from the
+            point the acquisition system was triggered.
+
+        Returns
+        -------
+        None
+            Updates internal attributes.
+
+        """
+        for sensor in self.sensors:
+            sensor.trim(start_time, end_time)
+
+    def trim_offsets(self, min_offset, max_offset):
+        """Remove sensors outside of the offsets specified.
+
+        Parameters
+        ----------
+        min_offset, max_offset : float
+            Specify the minimum and maximum allowable offset in meters.
+
+        Return
+        ------
+        None
+            Updates internal attributes.
+
+        """
+        sensors = []
+        for offset, sensor in zip(self.offsets, self.sensors):
+            if (offset > min_offset) and (offset < max_offset):
+                sensors.append(sensor)
+
+            if (offset > max_offset):
+                break
+
+        if len(sensors) == 0:
+            msg = "Removing all sensors at offsets between "
+            msg += f"{min_offset} and {max_offset}, results in no sensors."
+            raise ValueError(msg)
+
+        self.sensors = sensors
+
+    def zero_pad(self, df):
+        """Append zero to sensors to achieve a desired frequency step.
+
+        Parameters
+        ----------
+        df : float
+            Desired linear frequency step in Hertz.
+
+        Returns
+        -------
+        None
+            Instead modifies `sensors`.
+
+        """
+        for sensor in self.sensors:
+            sensor.zero_pad(df=df)
+
+    @property
+    def _flip_required(self):
+        return True if self.source.x > self.position(normalize=False)[-1] else False
+
+    def waterfall(self, ax=None, time_ax="y", amplitude_detrend=True,
+                  amplitude_normalization="each", amplitude_scale=None,
+                  position_normalization=False, plot_kwargs=None):
+        """Create waterfall plot for this array setup.
+
+        Parameters
+        ----------
+        ax : Axes, optional
+            Axes on which to plot, default is `None` indicating a
+            `Figure` and `Axes` will be generated on-the-fly.
+        time_ax : {'x', 'y'}, optional
+            Denotes the time axis, 'y' is the default.
+        amplitude_detrend : bool, optional
+            Boolean to control whether a linear detrending operation is
+            performed, default is `False` so no detrending is performed.
+        amplitude_normalization : {"none", "each", "all"}, optional
+            Enable different normalizations including:
+            `"each"` which normalizes each traces by its maximum,
+            `"all"` which normalizes all traces by the same maximum, and
+            `"none"` which perform no normalization, default is
+            `"each"`.
+        amplitude_scale : float, optional
+            Factor by which each trace is multiplied, default is `None`
+            which uses a factor equal to half the average receiver
+            receiver spacing.
+        position_normalization : bool, optional
+            Determines whether the array positions are shifted such
+            that the first sensor is located at x=0.
+        plot_kwargs : None, dict, optional
+            Kwargs for `matplotlib.pyplot.plot <https://matplotlib.org/3.3.1/api/_as_gen/matplotlib.pyplot.plot.html>`_
+            to control the style of each trace, default is `None`.
+
+        Returns
+        -------
+        Tuple
+            Of the form `(fig, ax)` where `fig` is the figure object
+            and `ax` the axes object on which the schematic is plotted,
+            if `ax=None`.
+
+        """
+        # Create axes (if required)
+        ax_was_none = False
+        if ax is None:
+            ax_was_none = True
+            if time_ax == "x":
+                size = (6, 4)
+            elif time_ax == "y":
+                size = (4, 6)
+            else:
+                msg = f"time_ax = {time_ax} not recognized, use 'x' or 'y'."
+                raise ValueError(msg)
+            fig, ax = plt.subplots(figsize=size)
+
+        # Prepare waterfall data.
+        time = self[0].time
+        traces = self.timeseriesmatrix(detrend=amplitude_detrend,
+                                       normalize=amplitude_normalization)
+        positions = self.position(normalize=position_normalization)
+        if amplitude_scale is None:
+            amplitude_scale = np.mean(np.diff(positions))/2
+        for i, position in enumerate(positions):
+            traces[i, :] *= amplitude_scale
+            traces[i, :] += position
+
+        # Allow custom plotting kwargs.
+        if plot_kwargs is None:
+            plot_kwargs = {}
+        default_kwargs = dict(color="b", linewidth=0.5)
+        kwargs = {**default_kwargs, **plot_kwargs}
+
+        # Plot waveforms.
+        if time_ax == "x":
+            for trace in traces:
+                ax.plot(time, trace, **kwargs)
+                kwargs["label"] = None
+        else:
+            for trace in traces:
+                ax.plot(trace, time, **kwargs)
+                kwargs["label"] = None
+
+        dist_ax = "x" if time_ax == "y" else "y"
+        if time_ax == "x":
+            time_tuple = (min(time), max(time))
+        else:
+            time_tuple = (max(time), min(time))
+        getattr(ax, f"set_{time_ax}lim")(time_tuple)
+
+        spacing = positions[1] - positions[0]
+        getattr(ax, f"set_{dist_ax}lim")(positions[0]-spacing,
+                                         positions[-1]+spacing)
+        getattr(ax, "grid")(axis=time_ax, linestyle=":")
+        getattr(ax, f"set_{time_ax}label")("Time (s)")
+        getattr(ax, f"set_{dist_ax}label")("Distance (m)")
+
+        for label in list("xy"):
+            ax.tick_params(label, length=4, width=1, which='major')
+
+        if ax_was_none:
+            fig.tight_layout()
+            return (fig, ax)
+
+    def plot(self, ax=None, sensor_kwargs=None, source_kwargs=None):
+        """Plot a schematic of the `Array1D` object.
+
+        The schematic shows the position of the receivers and source
+        and lists the total number of receivers and their spacing.
+
+        Parameters
+        ----------
+        ax : Axis, optional
+            Axes on which to plot, default is `None` indicating a
+            `Figure` and `Axis` will be generated on-the-fly.
+        sensor_kwargs, source_kwargs : None, dict, optional
+            Kwargs for `matplotlib.pyplot.plot <https://matplotlib.org/3.3.1/api/_as_gen/matplotlib.pyplot.plot.html>`_
+            to control the plotting of the sensors and source,
+            respectively. Default is `None`, indicating the predefined
+            default values will be used.
+
+        Returns
+        -------
+        Tuple
+            Of the form (fig, ax) where `fig` is the figure object and
+            `ax` the axes object on which the schematic is plotted, if
+            `ax=None`.
+
+        """
+        # Create axis on the fly.
+        ax_was_none = False
+        if ax is None:
+            ax_was_none = True
+            fig, ax = plt.subplots(figsize=(6, 2))
+
+        # Plot sensors.
+        xs = [sensor.x for sensor in self.sensors]
+        ys = [sensor.y for sensor in self.sensors]
+        default_sensor_kwargs = dict(marker="^", color="k",
+                                     linestyle="", label="Sensor")
+
+        if sensor_kwargs is None:
+            sensor_kwargs = {}
+        sensor_kwargs = {**default_sensor_kwargs, **sensor_kwargs}
+        ax.plot(xs, ys, **sensor_kwargs)
+
+        # List number of sensors and their spacing.
+        number_txt = f"Number of sensors: {self.nchannels}"
+        try:
+            spacing_txt = f"Sensor spacing: {self.spacing} m."
+        except ValueError:
+            spacing_txt = "Sensor spacing is not constant."
+        source_txt = f"Source @ {round(self.source.x, 2)} m."
+        ax.text(0.03, 0.95, f"{number_txt}\n{spacing_txt}\n{source_txt}",
+                transform=ax.transAxes, va="top", ha="left")
+
+        # Plot source.
+        default_source_kwargs = dict(marker="D", color="b",
+                                     linestyle="", label="Source")
+        if source_kwargs is None:
+            source_kwargs = {}
+        source_kwargs = {**default_source_kwargs, **source_kwargs}
+        ax.plot(self.source.x, self.source.y, **source_kwargs)
+
+        # General figure settings.
+        ymin, ymax = ax.get_ylim()
+        ax.set_ylim([min(ymin, -2), max(ymax, 5)])
+        ax.set_xlabel("Distance (m)")
+        ax.legend()
+
+        # Return figure and axes objects if generated on the fly.
+        if ax_was_none:
+            return (fig, ax)
+
+    def auto_pick_first_arrivals(self, algorithm="threshold",
+                                 **algorithm_kwargs):
+        if algorithm == "threshold":
+            picks = self._pick_on_threshold(**algorithm_kwargs)
+        else:
+            raise NotImplementedError
+        return picks
+
+    def _pick_on_threshold(self, threshold=0.05):
+        """
+
+        Parameters
+        ----------
+        threshold : {0.-1.}, optional
+            Picking threshold as a percent.
+
+        """
+        traces = self.timeseriesmatrix(detrend=True, normalize="each")
+        time = self.sensors[0].time
+
+        times = []
+        for trace in traces:
+            pindices = np.argwhere(abs(trace-np.mean(trace[:10])) > threshold)
+            index = int(pindices.flatten()[0])
+            times.append(time[index])
+
+        return (self.position(), times)
+
+    def manual_pick_first_arrivals(self, waterfall_kwargs=None):
+        """Allow for interactive picking of first arrivals.
+
+        Parameters
+        ----------
+        waterfall_kwargs : dict, optional
+            Dictionary of keyword arguments for
+            meth: `<Array1D.waterfall>`, default is `None` indicating
+            default keyword arguments.
+
+        Returns
+        -------
+        Tuple
+            Of the form (distance, picked_time)
+
+        """
+        if waterfall_kwargs is None:
+            waterfall_kwargs = {}
+
+        _, ax = self.waterfall(**waterfall_kwargs)
+
+        pairs = self._ginput_session(ax, npts=np.inf)
+
+        if ax.get_xlabel() == "Distance (m)":
+            distance, time = pairs
+        else:
+            time, distance = pairs
+
+        return (distance, time)
+
+    @staticmethod
+    def _ginput_session(*args, **kwargs):
+        return ginput_session(*args, **kwargs)
+
+    def interactive_mute(self, mute_location="both", window_kwargs=None,
+                         waterfall_kwargs=None):
+        """Interactively select source window boundary.
+
+        Parameters
+        ----------
+        mute_location : {"before", "after", "both"}, optional
+            Select which part of the record to mute, default is `"both"`
+            indicating two lines defining the source window boundary
+            will be required.
+        window_kwargs : dict, optional
+            Dictionary of keyword arguments defining the signal window,
+            see `scipy.singal.windows.tukey <https://docs.scipy.org/doc/scipy/reference/generated/scipy.signal.windows.tukey.html>`_
+            for available options.
+        waterfall_kwargs : dict, optional
+            Dictionary of keyword arguments defining how the waterfall
+            should be created, see `:meth Array1D.waterfall` for
+            the available options.
+
+        Returns
+        -------
+        tuple
+            Of the form `(signal_start, signal_end)`.
+
+        """
+        # Create waterfall plot.
+        default_waterfall_kwargs = dict(time_ax="y")
+        if waterfall_kwargs is None:
+            waterfall_kwargs = {}
+        waterfall_kwargs = {**default_waterfall_kwargs, **waterfall_kwargs}
+        _, ax = self.waterfall(**waterfall_kwargs)
+
+        # Parse x, y to distance, time
+        def parse(xs, ys, time_ax=waterfall_kwargs["time_ax"]):
+            if time_ax == "y":
+                return ((xs[0], ys[0]), (xs[1], ys[1]))
+            else:
+                return ((ys[0], xs[0]), (ys[1], xs[1]))
+
+        # Define the start of the signal.
+        if (mute_location == "before") or (mute_location == "both"):
+            xs, ys = self._ginput_session(ax, npts=2,
+                                          initial_adjustment=False,
+                                          ask_to_continue=False)
+            ax.plot(xs, ys, color="r", linewidth=0.5)
+            signal_start = parse(xs, ys)
+        else:
+            signal_start = None
+
+        # Define the end of the signal.
+        if (mute_location == "after") or (mute_location == "both"):
+            xs, ys = self._ginput_session(ax, npts=2,
+                                          initial_adjustment=False,
+                                          ask_to_continue=False)
+            ax.plot(xs, ys, color="r", linewidth=0.5)
+            signal_end = parse(xs, ys)
+        else:
+            signal_end = None
+
+        # Perform mute.
+        self.mute(signal_start=signal_start,
+                  signal_end=signal_end,
+                  window_kwargs=window_kwargs)
+
+        return (signal_start, signal_end)
+
+    def mute(self, signal_start=None, signal_end=None, window_kwargs=None):
+        """Mute traces outside of a narrow signal window.
+
+        Parameters
+        ----------
+        signal_start, signal_end : iterable of floats, optional
+            Two points to define start and stop of the narrow signal
+            window of the form
+            `((pt1_dist, pt1_time), (pt2_dist, pt2_time))`, default is
+            `None` .
+        window_kwargs : dict, optional
+            Dictionary of keyword arguments defining the signal window,
+            see `scipy.singal.windows.tukey <https://docs.scipy.org/doc/scipy/reference/generated/scipy.signal.windows.tukey.html>`_
+            for available options.
+
+        Returns
+        -------
+        None
+            Modifies the object internal state.
+
+        """
+        # General variables common to intercept calculations.
+        position = np.array(self.position())
+        dt = self[0].dt
+        delay = self[0].delay
+        ndelay = abs(delay/dt)
+        nsamples = self[0].nsamples
+
+        # Define starting index for each trace.
+        if signal_start is not None:
+            ((x1, t1), (x2, t2)) = signal_start
+            slope = (t2 - t1) / (x2 - x1)
+            times = t1 + slope*(position - x1)
+            start_indices = np.array((times / dt) + ndelay, dtype=int)
+        else:
+            start_indices = np.zeros_like(position, dtype=int)
+
+        # Define stopping index for each trace.
+        if signal_end is not None:
+            ((x1, t1), (x2, t2)) = signal_end
+            slope = (t2 - t1) / (x2 - x1)
+            times = t1 + slope*(position - x1)
+            stop_indices = np.array((times / dt) + ndelay, dtype=int)
+        else:
+            stop_indices = np.ones_like(position, dtype=int) * (nsamples-1)
+
+        # Define default windowing to be Tukey w/ 20% taper (10% on each side).
+        if window_kwargs is None:
+            window_kwargs = dict(alpha=0.2)
+
+        # TODO (jpv): Windowing can be pushed down into Sensor object.
+        # Perform windowing.
+        window = np.zeros(nsamples)
+        for i, (start, stop) in enumerate(zip(start_indices, stop_indices)):
+            window[start:stop] = signal.windows.tukey(stop-start,
+                                                      **window_kwargs)
+            self.sensors[i]._amp *= window
+            window *= 0
+
+    def _flipped_tseries_and_offsets(self):
+        """Timeseriesmatrix and offsets, flipped from near to far."""
+        if self._flip_required:
+            offsets = self.offsets[::-1]
+            tmatrix = np.flipud(self.timeseriesmatrix())
+        else:
+            offsets = self.offsets
+            tmatrix = self.timeseriesmatrix()
+        offsets = np.array(offsets)
+        return (tmatrix, offsets)
+
+    @classmethod
+    def from_files(cls, fnames, map_x=lambda x: x, map_y=lambda y: y, obspy_read_kwargs=None):
+        """Initialize an `Array1D` object from one or more data files.
+
+        This classmethod creates an `Array1D` object by reading the
+        header information in the provided file(s). Each file
+        should contain multiple traces where each trace corresponds to a
+        single receiver. Currently supported file types are SEG2 and SU.
+
+        Parameters
+        ----------
+        fnames : str or iterable
+            File name or iterable of file names. If multiple files
+            are provided the traces are stacked.
+        map_x, map_y : function, optional
+            Convert x and y coordinates using some function, default
+            is not transformation. Can be useful for converting between
+            coordinate systems.
+        obspy_read_kwargs : dict, optional
+            Keyword arguments to be passed to the obspy.read().
+
+        Returns
+        -------
+        Array1D
+            Initialized `Array1d` object.
+
+        Raises
+        ------
+        TypeError
+            If `fnames` is not of type `str` or `iterable`.
+
+        """
+        if isinstance(fnames, str):
+            fnames = [fnames]
+        
+        try:
+            iter(fnames)
+        except TypeError:
+            fnames = [str(fnames)]
+
+        if obspy_read_kwargs is None:
+            obspy_read_kwargs = {}
+
+        # Read traces from first file
+        with warnings.catch_warnings():
+            warnings.simplefilter("ignore")
+            stream = obspy.read(str(fnames[0]), **obspy_read_kwargs)
+
+        # Create array of sensors
+        sensors = []
+        for trace in stream.traces:
+            sensor = Sensor1C.from_trace(trace, map_x=map_x, map_y=map_y)
+            sensors.append(sensor)
+
+        # Define source
+        _format = trace.stats._format
+        if _format == "SEG2":
+            def parse_source(stats):
+                x = float(stats.seg2.SOURCE_LOCATION)
+                return Source(x=map_x(x), y=0, z=0)
+
+        elif _format == "SU":
+            def parse_source(stats):
+                if stats.su.trace_header["coordinate_units"] == 0:
+                    msg = "Coordinate units is unset, assuming length in meters and not degrees minutes seconds."
+                    warnings.warn(msg)
+                elif stats.su.trace_header["coordinate_units"] != 1:
+                    msg = "Coordinate units must be in units of length, not degrees minutes seconds."
+                    raise ValueError(msg)
+
+                scaleco = int(stats.su.trace_header["scalar_to_be_applied_to_all_coordinates"])
+                if scaleco == 0:
+                    msg = "Resetting scale to be applied to all coordinates from zero to one."
+                    warnings.warn(msg)
+                    scaleco = 1
+
+                int_x = int(stats.su.trace_header["source_coordinate_x"])
+                x = int_x / abs(scaleco) if scaleco < 0 else int_x * scaleco
+                x = round(x, -np.sign(scaleco) * int(np.log10(abs(scaleco))))
+
+                int_y = int(stats.su.trace_header["source_coordinate_y"])
+                y = int_y / abs(scaleco) if scaleco < 0 else int_y * scaleco
+                y = round(y, -np.sign(scaleco) * int(np.log10(abs(scaleco))))
+
+                return Source(x=map_x(x), y=map_y(y), z=0)
+
+        elif _format == "SEGY":
+            def parse_source(stats):
+                if stats.segy.trace_header["coordinate_units"] == 0:
+                    msg = "Coordinate units is unset, assuming length in meters and not degrees minutes seconds."
+                    warnings.warn(msg)
+                elif stats.segy.trace_header["coordinate_units"] != 1:
+                    msg = "Coordinate units must be in units of length, not degrees minutes seconds."
+                    raise ValueError(msg)
+
+                scaleco = int(
+                    stats.segy.trace_header["scalar_to_be_applied_to_all_coordinates"])
+                if scaleco == 0:
+                    msg = "Resetting scale to be applied to all coordinates from zero to one."
+                    warnings.warn(msg)
+                    scaleco = 1
+
+                int_x = int(stats.segy.trace_header["source_coordinate_x"])
+                x = int_x / abs(scaleco) if scaleco < 0 else int_x * scaleco
+                x = round(x, -np.sign(scaleco) * int(np.log10(abs(scaleco))))
+
+                int_y = int(stats.segy.trace_header["source_coordinate_y"])
+                y = int_y / abs(scaleco) if scaleco < 0 else int_y * scaleco
+                y = round(y, -np.sign(scaleco) * int(np.log10(abs(scaleco))))
+
+                return Source(x=map_x(x), y=map_y(y), z=0)
+
+        source = parse_source(trace.stats)
+        obj = cls(sensors, source)
+
+        # Stack additional traces, if necessary
+        if len(fnames) > 0:
+            for fname in fnames[1:]:
+                with warnings.catch_warnings():
+                    warnings.simplefilter("ignore")
+                    stream = obspy.read(str(fname))
+                nsource = parse_source(stream[0].stats)
+                if nsource != source:
+                    msg = f"fname = {fname} has an incompatible source."
+                    raise ValueError(msg)
+                for sensor, trace in zip(obj.sensors, stream.traces):
+                    new_sensor = Sensor1C.from_trace(trace)
+                    sensor.stack_append(new_sensor)
+
+        return obj
+
+    @classmethod
+    def from_array1d(cls, array1d):
+        """Create a deep copy of an existing `Array1D` object."""
+        sensors = []
+        for _sensor in array1d.sensors:
+            sensors.append(Sensor1C.from_sensor1c(_sensor))
+        source = Source.from_source(array1d.source)
+        obj = cls(sensors, source)
+        return obj
+
+    # su
+    # https://pubs.usgs.gov/of/2001/of01-326/HTML/FILEFORM.HTM
+    # https://wiki.seismic-unix.org/sudoc:su_data_format
+    # http://web.mit.edu/cwpsu_v44r1/sumanual_600dpi_letter.pdf
+
+    # segy
+    # https://sioseis.ucsd.edu/segy.header.html
+    # https://library.seg.org/pb-assets/technical-standards/seg_y_rev2_0-mar2017-1686080998003.pdf
+    def to_file(self, fname, ftype="su"):
+        if ftype != "su":
+            raise ValueError(f"ftype = {ftype} not recognized.")
+
+        stream = obspy.Stream()
+
+        def rint(x): return int(round(x))
+
+        for sensor in self.sensors:
+            trace = obspy.Trace(np.array(sensor.amplitude, dtype=np.float32))
+            trace.stats.delta = sensor.dt
+            trace.stats.starttime = obspy.UTCDateTime(2020, 12, 18, 10, 0, 0)
+
+            if not hasattr(trace.stats, 'su'):
+                trace.stats.su = {}
+            trace.stats.su.trace_header = SEGYTraceHeader()
+            trace.stats.su.trace_header.scalar_to_be_applied_to_all_coordinates = -1000
+            trace.stats.su.trace_header.source_coordinate_x = rint(
+                self.source._x*1000)
+            trace.stats.su.trace_header.source_coordinate_y = rint(
+                self.source._y*1000)
+            trace.stats.su.trace_header.number_of_horizontally_stacked_traces_yielding_this_trace = rint(
+                sensor.nstacks-1)
+            trace.stats.su.trace_header.delay_recording_time = rint(
+                sensor.delay*1000)
+            trace.stats.su.trace_header.group_coordinate_x = rint(
+                sensor.x*1000)
+            trace.stats.su.trace_header.group_coordinate_y = rint(
+                sensor.y*1000)
+            trace.stats.su.trace_header.coordinate_units = 1
+
+            stream.append(trace)
+
+        stream.write(filename=fname, format="SU")
+
+    def is_similar(self, other):
+        """Check if `other` is similar to `self`."""
+        if not isinstance(other, (Array1D,)):
+            return False
+
+        for attr in ["nchannels", "source"]:
+            if getattr(self, attr) != getattr(other, attr):
+                return False
+
+        return True
+
+    def __eq__(self, other):
+        """Define how `other` can be equal to `self`."""
+        if not self.is_similar(other):
+            return False
+
+        for my, ur in zip(self.sensors, other.sensors):
+            if my != ur:
+                return False
+
+        return True
+
+    def __getitem__(self, index):
+        """Select sensor by index."""
+        return self.sensors[index]
+
+
+class Array1DwSource(Array1D):
+
+    def __init__(self, sensors, source):
+        super().__init__(sensors, source)
+
+    @classmethod
+    def from_files(cls, fnames_rec, fnames_src, src_channel,
+                   map_x=lambda x: x, map_y=lambda y: y):
+        _cls = Array1D.from_files(fnames=fnames_rec, map_x=map_x, map_y=map_y)
+
+        # TODO (jpv): Badly assume fnames_src is a properly formatted list.
+        trace = obspy.read(str(fnames_src[0]))[src_channel]
+        dt = trace.meta.delta
+        amp = trace.data
+        for fname in fnames_src[1:]:
+            trace = obspy.read(str(fname))[src_channel]
+            amp += trace.data
+        amp /= len(fnames_src)
+
+        source = SourceWithSignal(_cls.source.x,
+                                  _cls.source.y,
+                                  _cls.source.z,
+                                  amp,
+                                  dt)
+
+        return cls(_cls.sensors, source)
+
+    def xcorrelate(self, vmin=None, vmax=None):
+
+        # TODO (jpv): Check dt for source and signal
+        # TODO (jpv): Size of source and receiver signal
+
+        if vmax is None:
+            vmax = 3000
+
+        if vmin is None:
+            vmin = 50
+
+        min_offset, max_offset = min(self.offsets), max(self.offsets)
+
+        tmin = min_offset/vmax
+        # TODO (jpv): Revisit minimum time add fudge factor for now.
+        idx_dx_tmin = int((tmin-0.5)/self.source.dt)
+
+        tmax = max_offset/vmin
+        idx_dx_tmax = int(tmax/self.source.dt)
+
+        # start correlation at/near zero lag position.
+        src_amp = self.source.amplitude
+        idx_zero = self.source.nsamples
+        idx_min, idx_max = idx_zero+idx_dx_tmin, idx_zero+idx_dx_tmax
+
+        sensors = []
+        for sensor in self.sensors:
+            corr = signal.correlate(sensor.amplitude, src_amp)
+            corr = corr[idx_min:idx_max]
+            sensor = Sensor1C(corr, dt=sensor.dt,
+                              x=sensor.x, y=sensor.y, z=sensor.z,
+                              nstacks=sensor.nstacks, delay=0)
+            sensors.append(sensor)
+
+        self.sensors = sensors
-- 
2.43.0


From 0386fb28a3c23245880c142be9fbb3c99499b73b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:32 +0000
Subject: [PATCH 04/32] fix: stacking several files applies mapping, order and
 read options to all

Additional files were read without map_x, map_y and obspy_read_kwargs,
their traces paired with the sorted sensors in file order, and missing
or extra traces silently ignored.
---
 swprocess/array1d.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/swprocess/array1d.py b/swprocess/array1d.py
index bc540a6..aec05a6 100644
--- a/swprocess/array1d.py
+++ b/swprocess/array1d.py
@@ -728,13 +728,18 @@ class Array1D():
             for fname in fnames[1:]:
                 with warnings.catch_warnings():
                     warnings.simplefilter("ignore")
-                    stream = obspy.read(str(fname))
+                    stream = obspy.read(str(fname), **obspy_read_kwargs)
                 nsource = parse_source(stream[0].stats)
                 if nsource != source:
                     msg = f"fname = {fname} has an incompatible source."
                     raise ValueError(msg)
-                for sensor, trace in zip(obj.sensors, stream.traces):
-                    new_sensor = Sensor1C.from_trace(trace)
+                new_sensors = [Sensor1C.from_trace(trace, map_x=map_x, map_y=map_y)
+                               for trace in stream.traces]
+                if len(new_sensors) != obj.nchannels:
+                    msg = f"fname = {fname} has an incompatible number of traces."
+                    raise ValueError(msg)
+                new_sensors.sort(key=lambda new_sensor: new_sensor.x)
+                for sensor, new_sensor in zip(obj.sensors, new_sensors):
                     sensor.stack_append(new_sensor)
 
         return obj
-- 
2.43.0


From 30e6c79479d22861d84c7feb64c3ddf41db88bd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:59 +0000
Subject: [PATCH 05/32] fix: SU files store the number of stacks that is read
 back

The writer stored one stack less than the reader expects.
---
 swprocess/array1d.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/swprocess/array1d.py b/swprocess/array1d.py
index aec05a6..aacc38a 100644
--- a/swprocess/array1d.py
+++ b/swprocess/array1d.py
@@ -784,7 +784,7 @@ class Array1D():
             trace.stats.su.trace_header.source_coordinate_y = rint(
                 self.source._y*1000)
             trace.stats.su.trace_header.number_of_horizontally_stacked_traces_yielding_this_trace = rint(
-                sensor.nstacks-1)
+                sensor.nstacks)
             trace.stats.su.trace_header.delay_recording_time = rint(
                 sensor.delay*1000)
             trace.stats.su.trace_header.group_coordinate_x = rint(
-- 
2.43.0


From e72b2a6df42f63ff998d46a8ccd07e8b9b018eac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:33 +0000
Subject: [PATCH 06/32] fix: trim_offsets keeps sensors in range whatever their
 order

---
 swprocess/array1d.py | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/swprocess/array1d.py b/swprocess/array1d.py
index aacc38a..36e7243 100644
--- a/swprocess/array1d.py
+++ b/swprocess/array1d.py
@@ -208,9 +208,6 @@ class Array1D():
             if (offset > min_offset) and (offset < max_offset):
                 sensors.append(sensor)
 
-            if (offset > max_offset):
-                break
-
         if len(sensors) == 0:
             msg = "Removing all sensors at offsets between "
             msg += f"{min_offset} and {max_offset}, results in no sensors."
-- 
2.43.0


From ff7e68d072f3649dd68c52ae6107fd1c2b6dec96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:05 +0000
Subject: [PATCH 07/32] fix: mute honours positive delays and windows beyond
 the record

---
 swprocess/array1d.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/swprocess/array1d.py b/swprocess/array1d.py
index 36e7243..86ed49f 100644
--- a/swprocess/array1d.py
+++ b/swprocess/array1d.py
@@ -560,7 +560,7 @@ class Array1D():
         position = np.array(self.position())
         dt = self[0].dt
         delay = self[0].delay
-        ndelay = abs(delay/dt)
+        ndelay = -delay/dt
         nsamples = self[0].nsamples
 
         # Define starting index for each trace.
@@ -581,6 +581,10 @@ class Array1D():
         else:
             stop_indices = np.ones_like(position, dtype=int) * (nsamples-1)
 
+        # Portions of the window beyond the record have nothing to keep.
+        start_indices = np.clip(start_indices, 0, nsamples)
+        stop_indices = np.clip(stop_indices, start_indices, nsamples)
+
         # Define default windowing to be Tukey w/ 20% taper (10% on each side).
         if window_kwargs is None:
             window_kwargs = dict(alpha=0.2)
-- 
2.43.0


From 4e7ef2fb95a514d3d6ea63f5cf3bbf3048d0bbd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:27:17 +0000
Subject: [PATCH 08/32] fix: beamforming stores the scalar power

---
 swprocess/wavefieldtransforms.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/swprocess/wavefieldtransforms.py b/swprocess/wavefieldtransforms.py
index 6bda2cd..23e94df 100644
--- a/swprocess/wavefieldtransforms.py
+++ b/swprocess/wavefieldtransforms.py
@@ -651,7 +651,7 @@ class FDBF(AbstractWavefieldTransform):
                 steer[:, 0] = create_steering(kx)[:]
                 _power = np.dot(np.dot(np.transpose(np.conjugate(steer)),
                                        weighted_sscm), steer)
-                power[j, i] = _power
+                power[j, i] = _power[0, 0]
 
         return (frequencies, power)
 
-- 
2.43.0


From 972091d35ab7b87c801fb01bacbdf31394472894 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:27:17 +0000
Subject: [PATCH 09/32] fix: FK transform leaves the settings given unchanged

---
 swprocess/wavefieldtransforms.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/swprocess/wavefieldtransforms.py b/swprocess/wavefieldtransforms.py
index 23e94df..07609af 100644
--- a/swprocess/wavefieldtransforms.py
+++ b/swprocess/wavefieldtransforms.py
@@ -717,7 +717,7 @@ class FK(FDBF):
 
     @classmethod
     def from_array(cls, array, settings):
-        settings["fdbf-specific"]["weighting"] = "none"
-        settings["fdbf-specific"]["steering"] = "plane"
+        settings = {**settings, "fdbf-specific": {"weighting": "none",
+                                                  "steering": "plane"}}
 
         return super().from_array(array, settings)
-- 
2.43.0


From ed75c81bda04691046d460feba6391e544d934d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:27:17 +0000
Subject: [PATCH 10/32] fix: peaks of complex power are picked by magnitude

---
 swprocess/wavefieldtransforms.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/swprocess/wavefieldtransforms.py b/swprocess/wavefieldtransforms.py
index 07609af..f64376e 100644
--- a/swprocess/wavefieldtransforms.py
+++ b/swprocess/wavefieldtransforms.py
@@ -132,7 +132,7 @@ class AbstractWavefieldTransform(ABC):
 
         """
         if by == "frequency-maximum":
-            return self.velocities[np.argmax(self.power, axis=0)]
+            return self.velocities[np.argmax(np.abs(self.power), axis=0)]
         else:
             msg = f"find_peak_power by {by} not recognized, see docs for options."
             raise NotImplementedError(msg)
-- 
2.43.0


From 322f7bd0547912613955199fe72a232e513e142a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:33 +0000
Subject: [PATCH 11/32] fix: signal-to-noise ratio uses the fine frequency step

---
 swprocess/snr.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/swprocess/snr.py b/swprocess/snr.py
index e0033ee..6cc4af9 100644
--- a/swprocess/snr.py
+++ b/swprocess/snr.py
@@ -42,7 +42,7 @@ class SignaltoNoiseRatio():
 
         # Frequency vector
         sensor = noise[0]
-        frqs = np.arange(sensor.nsamples) * sensor.df
+        frqs = np.arange(sensor.nsamples) * sensor._df
         Empty = WavefieldTransformRegistry.create_class("empty")
         keep_ids = Empty._frequency_keep_ids(frqs, fmin, fmax, sensor.multiple)
         frequencies = frqs[keep_ids]
-- 
2.43.0


From e84f24d721c88fadba2c95c5869295c9b806eb6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:43:48 +0000
Subject: [PATCH 12/32] fix: frequency-domain workflow accepts a single file
 name

---
 swprocess/maswworkflows.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/swprocess/maswworkflows.py b/swprocess/maswworkflows.py
index 8b4adc3..bb751af 100644
--- a/swprocess/maswworkflows.py
+++ b/swprocess/maswworkflows.py
@@ -259,6 +259,8 @@ class FrequencyDomainMaswWorkflow(AbstractMaswWorkflow):
     """Stack in the frequency-domain."""
 
     def run(self):
+        if isinstance(self.fnames, str):
+            self.fnames = [self.fnames]
         example_array = Array1D.from_files(self.fnames[0],
                                            map_x=self.map_x,
                                            map_y=self.map_y)
-- 
2.43.0


From 94ec1d6c06a76efe0cd3fd7e9e86bcba93d8ba54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:43:48 +0000
Subject: [PATCH 13/32] fix: workflows mute with the window asked for

---
 swprocess/maswworkflows.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/swprocess/maswworkflows.py b/swprocess/maswworkflows.py
index bb751af..98f0bd0 100644
--- a/swprocess/maswworkflows.py
+++ b/swprocess/maswworkflows.py
@@ -84,9 +84,13 @@ class AbstractMaswWorkflow(ABC):
         """Mute record in the time domain."""
         mute = self.settings["pre-processing"]["mute"]
         if mute["apply"]:
+            window_kwargs = mute.get("window_kwargs") or None
             if self.signal_start is None and self.signal_end is None:
                 if mute["method"] == "interactive":
-                    self.signal_start, self.signal_end = self.array.interactive_mute()
+                    kwargs = {}
+                    if window_kwargs is not None:
+                        kwargs["window_kwargs"] = window_kwargs
+                    self.signal_start, self.signal_end = self.array.interactive_mute(**kwargs)
                 # TODO (jpv): Implement predefined times for muting.
                 else:
                     msg = f"mute type {mute['method']} is unknown, use 'interactive'."
@@ -94,7 +98,7 @@ class AbstractMaswWorkflow(ABC):
             else:
                 self.array.mute(signal_start=self.signal_start,
                                 signal_end=self.signal_end,
-                                window_kwargs=mute.get("window kwargs"),
+                                window_kwargs=window_kwargs,
                                 )
 
     def select_signal(self):
-- 
2.43.0


From c3807bb772ca8f28f0a577ea93866ece9a09a7c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:52:02 +0000
Subject: [PATCH 14/32] fix: peaks with different numbers of points are not
 equal

---
 swprocess/peaks.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/swprocess/peaks.py b/swprocess/peaks.py
index 6a8f845..300b2b7 100644
--- a/swprocess/peaks.py
+++ b/swprocess/peaks.py
@@ -670,10 +670,9 @@ class Peaks():
             except AttributeError:
                 return False
             else:
-                try:
-                    if not np.allclose(myattr, urattr, equal_nan=True):
-                        return False
-                except ValueError:
+                if myattr.shape != urattr.shape:
+                    return False
+                if not np.allclose(myattr, urattr, equal_nan=True):
                     return False
 
         return True
-- 
2.43.0


From 318deeb75761e99ad676ae5d7eee862d99c87305 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:52:02 +0000
Subject: [PATCH 15/32] fix: reading peaks from a dict leaves the dict
 unchanged

---
 swprocess/peaks.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/swprocess/peaks.py b/swprocess/peaks.py
index 300b2b7..58ef533 100644
--- a/swprocess/peaks.py
+++ b/swprocess/peaks.py
@@ -599,11 +599,8 @@ class Peaks():
             Initialized `Peaks` instance.
 
         """
-        valid = data_dict.get("valid")
-        try:
-            del data_dict["valid"]
-        except KeyError:
-            pass
+        data_dict = dict(data_dict)
+        valid = data_dict.pop("valid", None)
 
         obj = cls(identifier=identifier, **data_dict)
 
-- 
2.43.0


From 3a86a74a00894d08cc139251d57b192f326c1ebe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:55:17 +0000
Subject: [PATCH 16/32] fix: .max peaks are matched by whole fields

---
 swprocess/peaks.py |  8 +++++---
 swprocess/regex.py | 12 ++++++------
 2 files changed, 11 insertions(+), 9 deletions(-)

diff --git a/swprocess/peaks.py b/swprocess/peaks.py
index 58ef533..456fd92 100644
--- a/swprocess/peaks.py
+++ b/swprocess/peaks.py
@@ -17,6 +17,7 @@
 """Peaks class definition."""
 
 import json
+import re
 import warnings
 import logging
 
@@ -164,7 +165,7 @@ class Peaks():
             start_time, *_ = regex.search(peak_data).groups()
 
         if frequencies is None:
-            regex = get_peak_from_max(time=start_time, wavetype=wavetype)
+            regex = get_peak_from_max(time=re.escape(start_time), wavetype=wavetype)
             frequencies = []
             for match in regex.finditer(peak_data):
                 _, f, *_ = match.groups()
@@ -188,7 +189,8 @@ class Peaks():
         pwrs = np.full_like(frqs, fill_value=np.nan, dtype=float)
 
         for col, frequency in enumerate(frequencies):
-            getpeak = get_peak_from_max(time=start_time, frequency=frequency,
+            getpeak = get_peak_from_max(time=re.escape(start_time),
+                                        frequency=re.escape(frequency),
                                         wavetype=wavetype)
 
             for row, match in enumerate(getpeak.finditer(peak_data)):
@@ -202,7 +204,7 @@ class Peaks():
                 pwrs[row, col] = float(_pwr)
 
         # Include for "belt and suspenders".
-        getall = get_all(time=start_time, wavetype=wavetype)
+        getall = get_all(time=re.escape(start_time), wavetype=wavetype)
         count = len(getall.findall(peak_data))
         if np.sum(~np.isnan(frqs)) != count:  # pragma: no cover
             msg = f"Missing {count - len(frqs)} dispersion peaks."
diff --git a/swprocess/regex.py b/swprocess/regex.py
index a76b9cb..b53f4ee 100644
--- a/swprocess/regex.py
+++ b/swprocess/regex.py
@@ -21,8 +21,8 @@ import re
 __all__ = ["get_peak_from_max", "get_nmaxima",  "get_all", "get_spac_ratio", "get_spac_ring"]
 
 DEFAULT_TIME = r"\d+\.?\d*"
-DEFAULT_FREQUENCY = r"-?\d+.?\d*[eE]?[+-]?\d*"
-NUMBER = r"-?\d+.?\d*[eE]?[+-]?\d*"
+DEFAULT_FREQUENCY = r"-?\d+\.?\d*[eE]?[+-]?\d*"
+NUMBER = r"-?\d+\.?\d*[eE]?[+-]?\d*"
 
 
 def get_peak_from_max(time=DEFAULT_TIME, frequency=DEFAULT_FREQUENCY, wavetype="rayleigh"):
@@ -44,7 +44,7 @@ def get_peak_from_max(time=DEFAULT_TIME, frequency=DEFAULT_FREQUENCY, wavetype="
     """
     # abs_time frequency polarization slowness azimuth ellipticity noise power valid
     wavetype = validate_wavetypes(wavetype)
-    pattern = f"({time}) ({frequency}) {wavetype} ({NUMBER}) ({NUMBER}) ({NUMBER}) ({NUMBER}|-?inf|nan) ({NUMBER}) 1"
+    pattern = rf"(?<!\S)({time}) ({frequency}) {wavetype} ({NUMBER}) ({NUMBER}) ({NUMBER}) ({NUMBER}|-?inf|nan) ({NUMBER}) 1(?!\S)"
     return re.compile(pattern)
 
 def get_geopsy_version():
@@ -79,11 +79,11 @@ def get_all(wavetype=r"rayleigh", time=r"(\d+\.?\d*)"):
 
     """
     if wavetype is None:
-        pattern = f"{time} .* 1"
+        pattern = rf"(?<!\S){time} .* 1[ \t]*$"
     else:
         wavetype = validate_wavetypes(wavetype)
-        pattern = f"{time} .* {wavetype} .* 1"
-    return re.compile(pattern)
+        pattern = rf"(?<!\S){time} .* {wavetype} .* 1[ \t]*$"
+    return re.compile(pattern, re.MULTILINE)
 
 def validate_wavetypes(wavetype):
     if wavetype in ("rayleigh", "love", "vertical", "radial", "transverse"):
-- 
2.43.0


From 91199ef6f9c429626017e4f7930fb44da59680e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:55:18 +0000
Subject: [PATCH 17/32] fix: wave type is found when the noise level is
 infinite

---
 swprocess/regex.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/swprocess/regex.py b/swprocess/regex.py
index b53f4ee..c5f3fa5 100644
--- a/swprocess/regex.py
+++ b/swprocess/regex.py
@@ -52,7 +52,7 @@ def get_geopsy_version():
 
 def get_wavetype():
     space = r"(\S+)"
-    pattern = f"{DEFAULT_TIME} {DEFAULT_FREQUENCY} {space} {NUMBER} {NUMBER} {NUMBER} {NUMBER}|-?inf|nan {NUMBER} 1"
+    pattern = f"{DEFAULT_TIME} {DEFAULT_FREQUENCY} {space} {NUMBER} {NUMBER} {NUMBER} (?:{NUMBER}|-?inf|nan) {NUMBER} 1"
     return re.compile(pattern)
 
 def get_process_type():
-- 
2.43.0


From 5364f9c70673afa27ca36d0da6fc6954849d0ed3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:55:18 +0000
Subject: [PATCH 18/32] fix: wave type of one .max file does not carry over to
 the next

---
 swprocess/peakssuite.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/swprocess/peakssuite.py b/swprocess/peakssuite.py
index 3967d70..1736ab8 100644
--- a/swprocess/peakssuite.py
+++ b/swprocess/peakssuite.py
@@ -842,15 +842,16 @@ class PeaksSuite():
 
             regex = get_wavetype()
             wavetype_from_file = regex.search(peak_data).groups()[0]
+            file_wavetype = wavetype
             if wavetype == "rayleigh" and wavetype_from_file == "Vertical":
-                wavetype = "vertical"
+                file_wavetype = "vertical"
 
             regex = get_nmaxima()
             nmaxima = int(regex.search(peak_data).groups()[0])
             nmaxima = max(1, nmaxima)
             nmaxima = min(100, nmaxima)
 
-            regex = get_peak_from_max(wavetype=wavetype)
+            regex = get_peak_from_max(wavetype=file_wavetype)
             frequencies = []
             for match in regex.finditer(peak_data):
                 _, f, *_ = match.groups()
@@ -859,7 +860,7 @@ class PeaksSuite():
                 else:
                     frequencies.append(f)
 
-            regex = get_peak_from_max(wavetype=wavetype)
+            regex = get_peak_from_max(wavetype=file_wavetype)
             found_times = []
             for found in regex.finditer(peak_data):
                 start_time = found.groups()[0]
@@ -867,7 +868,7 @@ class PeaksSuite():
                     continue
                 found_times.append(start_time)
                 peak = Peaks._parse_peaks(peak_data,
-                                          wavetype=wavetype,
+                                          wavetype=file_wavetype,
                                           start_time=start_time,
                                           frequencies=frequencies,
                                           nmaxima=nmaxima)
-- 
2.43.0


From 71d0f4b572ac15bcac9815ceae9f799c69287626 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:13:50 +0000
Subject: [PATCH 19/32] fix: restore line endings of activetimeseries, array1d
 and sensor1c

---
 swprocess/activetimeseries.py |  846 ++++++++--------
 swprocess/array1d.py          | 1778 ++++++++++++++++-----------------
 swprocess/sensor1c.py         |  596 +++++------
 3 files changed, 1610 insertions(+), 1610 deletions(-)

diff --git a/swprocess/activetimeseries.py b/swprocess/activetimeseries.py
index 97724e1..f7fc6d3 100644
--- a/swprocess/activetimeseries.py
+++ b/swprocess/activetimeseries.py
@@ -1,423 +1,423 @@
-# This file is part of swprocess, a Python package for surface wave processing.
-# Copyright (C) 2020 Joseph P. Vantassel (joseph.p.vantassel@gmail.com)
-#
-#     This program is free software: you can redistribute it and/or modify
-#     it under the terms of the GNU General Public License as published by
-#     the Free Software Foundation, either version 3 of the License, or
-#     (at your option) any later version.
-#
-#     This program is distributed in the hope that it will be useful,
-#     but WITHOUT ANY WARRANTY; without even the implied warranty of
-#     MERCHANTABILITY or FITNESS FOR A PARTICULAR PURPOSE.  See the
-#     GNU General Public License for more details.
-#
-#     You should have received a copy of the GNU General Public License
-#     along with this program.  If not, see <https: //www.gnu.org/licenses/>.
-
-"""ActiveTimeSeries class definition."""
-
-import warnings
-import logging
-
-import numpy as np
-from scipy.signal import correlate
-from sigpropy import TimeSeries
-
-logger = logging.getLogger("swprocess.activetimeseries")
-
-
-class ActiveTimeSeries(TimeSeries):
-    """A class for working with active-source `TimeSeries`.
-
-    Attributes
-    ----------
-    amplitude : ndarray
-        Recording's amplitude, one per sample.
-    dt : float
-        Time step between samples in seconds.
-
-    """
-
-    @staticmethod
-    def _check_input(nstacks, delay):
-        """Check inputs have correct type and values.
-
-        Specifically:
-        1. `nstacks` is an `int` greater than zero.
-        2. `delay` is a `float` less than or equal to zero.
-
-        """
-        nstacks = int(nstacks)
-        if nstacks <= 0:
-            msg = f"nstacks must be greater than zero, not {nstacks}."
-            raise ValueError(msg)
-
-        delay = float(delay)
-        if delay > 0:
-            msg = f"delay must be less than or equal to zero, not {delay}."
-            raise ValueError(msg)
-
-        return (nstacks, delay)
-
-    def __init__(self, amplitude, dt, nstacks=1, delay=0):
-        """Initialize an `ActiveTimeSeries` object.
-
-        Parameters
-        ----------
-        amplitude : array-like
-            Recording's amplitude, one per sample. The first
-            value is associated with `time=0` seconds and the last is
-            associate with `time=(len(amplitude)-1)*dt` seconds.
-        dt : float
-            Time step between samples in seconds.
-        nstacks : int, optional
-            Number of stacks used to produce `amplitude`, default is 1.
-        delay : float, optional
-            Delay to the start of the record in seconds, default is 0.
-
-        Returns
-        -------
-        ActiveTimeSeries
-            Intialized `ActiveTimeSeries` object.
-
-        """
-        super().__init__(amplitude=amplitude, dt=dt)
-        self._nstacks, self._delay = self._check_input(nstacks, delay)
-        self._multiple = 1
-
-    @property
-    def n_stacks(self):
-        warnings.warn("`n_stacks` is deprecated, use `nstacks` instead",
-                      DeprecationWarning)
-        return self._nstacks
-
-    @property
-    def nstacks(self):
-        return self._nstacks
-
-    @property
-    def delay(self):
-        return self._delay
-
-    @property
-    def _df(self):
-        # Internal (i.e., real) df.
-        return super().df
-
-    @property
-    def df(self):
-        # User facing df.
-        return self._df * self.multiple
-
-    @property
-    def multiple(self):
-        return self._multiple
-
-    @property
-    def time(self):
-        """Time vector for `ActiveTimeSeries`."""
-        return super().time + self._delay
-
-    def stack_append(self, timeseries):
-        """Stack (i.e., average) a new timeseries onto the current one.
-
-        Parameters
-        ----------
-        timeseries : ActiveTimeSeries
-            `ActiveTimeSeries` to be stacked onto the current object.
-
-        Returns
-        -------
-        None
-            Updates the attributes `amplitude` and `nstacks`.
-
-        Raises
-        ------
-        ValueError
-            If `timeseries` is not an `ActiveTimeSeries` or
-            it cannot be stacked to the current object (i.e., the two
-            are dissimilar).
-
-        """
-        if not self._is_similar(timeseries, exclude=["nstacks"]):
-            msg = "`timeseries` is incompatible and cannot be stacked."
-            raise ValueError(msg)
-
-        self._amp = (self._amp*self.nstacks +
-                     timeseries._amp*timeseries.nstacks)
-        self._amp /= (self.nstacks + timeseries.nstacks)
-        self._nstacks += timeseries.nstacks
-
-    @classmethod
-    def from_activetimeseries(cls, activetimeseries):
-        obj = cls(activetimeseries.amplitude,
-                  activetimeseries.dt,
-                  nstacks=activetimeseries.nstacks)
-        obj._copy_state(activetimeseries)
-        return obj
-
-    def _copy_state(self, other):
-        """Copy state that trim and zero_pad may have set on `other`."""
-        self._delay = other._delay
-        self._multiple = other._multiple
-
-    @classmethod
-    def from_trace_seg2(cls, trace):
-        """Initialize from a SEG2 `Trace` object.
-
-        This method is similar to :meth:`ActiveTimeSeries.from_trace`
-        except that it extracts additional information from the `Trace`
-        header. So only use this method if you have a seg2 file and the
-        header information is correct.
-
-        Parameters
-        ----------
-        trace: Trace
-            `Trace` object from a correctly written seg2 file.
-
-        Returns
-        -------
-        ActiveTimeSeries
-            Instantiated with seg2 file.
-
-        """
-        return cls.from_trace(trace=trace,
-                              nstacks=int(trace.stats.seg2.STACK),
-                              delay=float(trace.stats.seg2.DELAY))
-
-    @classmethod
-    def from_trace(cls, trace, nstacks=1, delay=0):
-        """Create `ActiveTimeSeries` from a `Trace` object.
-
-        This method is more general than
-        :meth:`ActiveTimeSeries.from_trace_seg2`,
-        as it does not attempt to extract any metadata from the `Trace`
-        object.
-
-        Parameters
-        ----------
-        trace : Trace
-            Refer to
-            `obspy documentation <https://github.com/obspy/obspy/wiki>`_
-            for more information.
-        nstacks : int, optional
-            Number of stacks the time series represents, default is
-            1, signifying a single unstacked time record.
-        delay : float {<=0.}, optional
-            Denotes the pre-event delay, default is zero, meaning no
-            pre-event noise was recorded.
-
-        Returns
-        -------
-        ActiveTimeSeries
-            Initialized with information from `trace`.
-
-        """
-        return cls(amplitude=trace.data, dt=trace.stats.delta,
-                   nstacks=nstacks, delay=delay)
-
-    def trim(self, start_time, end_time):
-        """Trim in the interval [`start_time`, `end_time`].
-
-        For more information see :meth:`sigpropy.TimeSeries.trim`.
-
-        Parameters
-        ----------
-        start_time : float
-            New time-zero in seconds.
-        end_time : float
-            New end-time in seconds.
-
-        Returns
-        -------
-        None
-            Updates the attributes `nsamples` and `delay`.
-
-        """
-        super().trim(start_time, end_time)
-        self._delay = start_time
-
-    def zero_pad(self, df):
-        """Append zeros to `amp` to achieve a desired frequency step.
-
-        Note for exact results, `1/(df*dt)` must be an integer,
-        otherwise a `df` close to the desired `df` will be returned.
-
-        Parameters
-        ----------
-        df : float
-            Desired frequency step in Hertz.
-
-        Returns
-        -------
-        None
-            Instead modifies attributes: `amp`, `nsamples`, `multiple`.
-
-        Raises
-        ------
-        ValueError
-            If `df` < 0 (i.e., non-positive).
-
-        """
-        df = float(df)
-        logger.info(f"zero_pad(df={df})")
-        self._multiple = 1
-        if df <= 0:
-            raise ValueError(f"df must be positive, currently {df}.")
-
-        new_nsamples_float = 1/(df*self.dt)
-        new_nsamples = int(round(new_nsamples_float))
-        if new_nsamples_float != new_nsamples:
-            msg = "  `1/(df*dt)` is not an integer results will be approximate."
-            logger.warning(msg)
-
-        # If new_nsamples > nsamples, pad zeros.
-        if new_nsamples > self.nsamples:
-            padding = new_nsamples - self.nsamples
-        # If new_nsamples < nsamples, pad zeros to achieve a multiple
-        # of new_nsamples (i.e.,  a fraction of df). After processing,
-        # extract the results at the frequencies of interest.
-        elif new_nsamples < self.nsamples:
-            # If df_old is already an integer of df_new
-            if self.nsamples % new_nsamples == 0:
-                self._multiple = int(self.nsamples/new_nsamples)
-                return
-            # If df_old is not already an integer of df_new, pad existing series.
-            else:
-                padding = new_nsamples - (self.nsamples % new_nsamples)
-                self._multiple = int((self.nsamples + padding) / new_nsamples)
-        # If new_samples == nsamples, do nothing.
-        else:
-            return
-
-        self._amp = np.concatenate((self._amp, np.zeros((1, padding))), axis=1)
-
-    @staticmethod
-    def crosscorr(a, b, correlate_kwargs=None, exclude=("nsamples")):
-        """Cross correlation of two `ActiveTimeSeries` objects.
-
-        Parameters
-        ----------
-        a : ActiveTimeSeries
-            Base `ActiveTimeSeries` to which `b` is correlated.
-        b: ActiveTimeSeries
-            `ActiveTimeSeries` correlated to `a`.
-        correlate_kwargs : dict, optional
-            `dict` of keyword argument for the correlate function, see
-            `scipy.signal.correlate <https://docs.scipy.org/doc/scipy/reference/generated/scipy.signal.correlate.html>`_
-            for details.
-        exclude : tuple, optional
-            `tuple` of attributes to exclude in an is_similar
-            comparison, default is `('nsamples')`.
-
-        Returns
-        -------
-        ndarray
-            Containing the cross correlation.
-
-        """
-        if not a._is_similar(b, exclude=exclude):
-            raise ValueError("`a` and `b` must be similar.")
-
-        if correlate_kwargs is None:
-            correlate_kwargs = {}
-
-        return correlate(a.amplitude, b.amplitude, **correlate_kwargs)
-
-    @staticmethod
-    def crosscorr_shift(a, b, exclude=None):
-        """Shift `b` so that it is maximally corrlated with `a`.
-
-        Parameters
-        ----------
-        a : ActiveTimeSeries
-            `ActiveTimeSeries` to which `b` will be correlated. `a`
-            should be similar to `b`.
-        b : ActiveTimeSeries
-            `ActiveTimeSeries` which will be shifted so that it is
-            maximally correlated with `a`. `b` should be similar to `a`.
-        exclude : tuple, optional
-            `tuple` of attributes to exclude in an is_similar
-            comparison, default is `('nsamples')`.
-
-        Returns
-        -------
-        ndarray
-            Which represents the stack of the correlated and padded `b`
-            onto `a`.
-
-        """
-        corr = ActiveTimeSeries.crosscorr(a, b, exclude=exclude)
-        maxcorr_location = np.argmax(corr)
-        shifts = (maxcorr_location+1)-b.nsamples
-        if shifts > 0:
-            return (shifts, np.concatenate((np.zeros(shifts), b.amplitude[:-shifts])))
-        elif shifts < 0:
-            return (shifts, np.concatenate((b.amplitude[abs(shifts):], np.zeros(abs(shifts)))))
-        else:
-            return (shifts, np.array(b.amplitude))
-
-    @classmethod
-    def from_cross_stack(cls, a, b):
-        """Create `ActiveTimeSeries` from cross-correlation.
-
-        Cross-correlate `b` to `a` and shift `b` such that it is
-        maximally correlated with `a`. Then stack the shifted version
-        of `b` onto `a`.
-
-        Parameters
-        ----------
-        a : ActiveTimeSeries
-            `ActiveTimeSeries` to which `b` will be correlated and
-            stacked. `a` should be similar to `b`.
-        b : ActiveTimeSeries
-            `ActiveTimeSeries` which will be correlated with and stacked
-            onto `a`. `b` should be similar to `a`.
-
-        Return
-        ------
-        ActiveTimeSeries
-            Which represents the correlated and potentially zero-padded
-            `b` stacked onto `a`.
-
-        """
-        obj = cls.from_activetimeseries(a)
-        b_copy = cls.from_activetimeseries(b)
-        _, shifted_amplitude = cls.crosscorr_shift(
-            a, b_copy, exclude=("nsamples", "nstacks"))
-        b_copy._amp = np.expand_dims(shifted_amplitude, axis=0)
-        obj.stack_append(b_copy)
-        return obj
-
-    def _is_similar(self, other, exclude=None):
-        """Check if `other` is similar to `self`."""
-        if exclude is None:
-            exclude = []
-
-        if not isinstance(other, ActiveTimeSeries):
-            return False
-
-        for attr in ["dt", "nstacks", "delay", "nsamples"]:
-            if attr in exclude:
-                continue
-            if getattr(self, attr) != getattr(other, attr):
-                return False
-        return True
-
-    def __eq__(self, other):
-        """Check if `other` is equal to `self`."""
-        if not self._is_similar(other):
-            return False
-
-        if not np.allclose(self.amplitude, other.amplitude):
-            return False
-
-        return True
-
-    def __repr__(self):
-        """Unambiguous representation of the object."""
-        return f"ActiveTimeSeries(dt={self.dt}, amplitude={self.amplitude}, nstacks={self._nstacks}, delay={self._delay})"
-
-    def __str__(self):
-        """Human-readable representation of the object."""
-        return f"ActiveTimeSeries with:\n\tdt={self.dt}\n\tnsamples={self.nsamples}\n\tnstacks={self._nstacks}\n\tdelay={self._delay}"
+# This file is part of swprocess, a Python package for surface wave processing.
+# Copyright (C) 2020 Joseph P. Vantassel (joseph.p.vantassel@gmail.com)
+#
+#     This program is free software: you can redistribute it and/or modify
+#     it under the terms of the GNU General Public License as published by
+#     the Free Software Foundation, either version 3 of the License, or
+#     (at your option) any later version.
+#
+#     This program is distributed in the hope that it will be useful,
+#     but WITHOUT ANY WARRANTY; without even the implied warranty of
+#     MERCHANTABILITY or FITNESS FOR A PARTICULAR PURPOSE.  See the
+#     GNU General Public License for more details.
+#
+#     You should have received a copy of the GNU General Public License
+#     along with this program.  If not, see <https: //www.gnu.org/licenses/>.
+
+"""ActiveTimeSeries class definition."""
+
+import warnings
+import logging
+
+import numpy as np
+from scipy.signal import correlate
+from sigpropy import TimeSeries
+
+logger = logging.getLogger("swprocess.activetimeseries")
+
+
+class ActiveTimeSeries(TimeSeries):
+    """A class for working with active-source `TimeSeries`.
+
+    Attributes
+    ----------
+    amplitude : ndarray
+        Recording's amplitude, one per sample.
+    dt : float
+        Time step between samples in seconds.
+
+    """
+
+    @staticmethod
+    def _check_input(nstacks, delay):
+        """Check inputs have correct type and values.
+
+        Specifically:
+        1. `nstacks` is an `int` greater than zero.
+        2. `delay` is a `float` less than or equal to zero.
+
+        """
+        nstacks = int(nstacks)
+        if nstacks <= 0:
+            msg = f"nstacks must be greater than zero, not {nstacks}."
+            raise ValueError(msg)
+
+        delay = float(delay)
+        if delay > 0:
+            msg = f"delay must be less than or equal to zero, not {delay}."
+            raise ValueError(msg)
+
+        return (nstacks, delay)
+
+    def __init__(self, amplitude, dt, nstacks=1, delay=0):
+        """Initialize an `ActiveTimeSeries` object.
+
+        Parameters
+        ----------
+        amplitude : array-like
+            Recording's amplitude, one per sample. The first
+            value is associated with `time=0` seconds and the last is
+            associate with `time=(len(amplitude)-1)*dt` seconds.
+        dt : float
+            Time step between samples in seconds.
+        nstacks : int, optional
+            Number of stacks used to produce `amplitude`, default is 1.
+        delay : float, optional
+            Delay to the start of the record in seconds, default is 0.
+
+        Returns
+        -------
+        ActiveTimeSeries
+            Intialized `ActiveTimeSeries` object.
+
+        """
+        super().__init__(amplitude=amplitude, dt=dt)
+        self._nstacks, self._delay = self._check_input(nstacks, delay)
+        self._multiple = 1
+
+    @property
+    def n_stacks(self):
+        warnings.warn("`n_stacks` is deprecated, use `nstacks` instead",
+                      DeprecationWarning)
+        return self._nstacks
+
+    @property
+    def nstacks(self):
+        return self._nstacks
+
+    @property
+    def delay(self):
+        return self._delay
+
+    @property
+    def _df(self):
+        # Internal (i.e., real) df.
+        return super().df
+
+    @property
+    def df(self):
+        # User facing df.
+        return self._df * self.multiple
+
+    @property
+    def multiple(self):
+        return self._multiple
+
+    @property
+    def time(self):
+        """Time vector for `ActiveTimeSeries`."""
+        return super().time + self._delay
+
+    def stack_append(self, timeseries):
+        """Stack (i.e., average) a new timeseries onto the current one.
+
+        Parameters
+        ----------
+        timeseries : ActiveTimeSeries
+            `ActiveTimeSeries` to be stacked onto the current object.
+
+        Returns
+        -------
+        None
+            Updates the attributes `amplitude` and `nstacks`.
+
+        Raises
+        ------
+        ValueError
+            If `timeseries` is not an `ActiveTimeSeries` or
+            it cannot be stacked to the current object (i.e., the two
+            are dissimilar).
+
+        """
+        if not self._is_similar(timeseries, exclude=["nstacks"]):
+            msg = "`timeseries` is incompatible and cannot be stacked."
+            raise ValueError(msg)
+
+        self._amp = (self._amp*self.nstacks +
+                     timeseries._amp*timeseries.nstacks)
+        self._amp /= (self.nstacks + timeseries.nstacks)
+        self._nstacks += timeseries.nstacks
+
+    @classmethod
+    def from_activetimeseries(cls, activetimeseries):
+        obj = cls(activetimeseries.amplitude,
+                  activetimeseries.dt,
+                  nstacks=activetimeseries.nstacks)
+        obj._copy_state(activetimeseries)
+        return obj
+
+    def _copy_state(self, other):
+        """Copy state that trim and zero_pad may have set on `other`."""
+        self._delay = other._delay
+        self._multiple = other._multiple
+
+    @classmethod
+    def from_trace_seg2(cls, trace):
+        """Initialize from a SEG2 `Trace` object.
+
+        This method is similar to :meth:`ActiveTimeSeries.from_trace`
+        except that it extracts additional information from the `Trace`
+        header. So only use this method if you have a seg2 file and the
+        header information is correct.
+
+        Parameters
+        ----------
+        trace: Trace
+            `Trace` object from a correctly written seg2 file.
+
+        Returns
+        -------
+        ActiveTimeSeries
+            Instantiated with seg2 file.
+
+        """
+        return cls.from_trace(trace=trace,
+                              nstacks=int(trace.stats.seg2.STACK),
+                              delay=float(trace.stats.seg2.DELAY))
+
+    @classmethod
+    def from_trace(cls, trace, nstacks=1, delay=0):
+        """Create `ActiveTimeSeries` from a `Trace` object.
+
+        This method is more general than
+        :meth:`ActiveTimeSeries.from_trace_seg2`,
+        as it does not attempt to extract any metadata from the `Trace`
+        object.
+
+        Parameters
+        ----------
+        trace : Trace
+            Refer to
+            `obspy documentation <https://github.com/obspy/obspy/wiki>`_
+            for more information.
+        nstacks : int, optional
+            Number of stacks the time series represents, default is
+            1, signifying a single unstacked time record.
+        delay : float {<=0.}, optional
+            Denotes the pre-event delay, default is zero, meaning no
+            pre-event noise was recorded.
+
+        Returns
+        -------
+        ActiveTimeSeries
+            Initialized with information from `trace`.
+
+        """
+        return cls(amplitude=trace.data, dt=trace.stats.delta,
+                   nstacks=nstacks, delay=delay)
+
+    def trim(self, start_time, end_time):
+        """Trim in the interval [`start_time`, `end_time`].
+
+        For more information see :meth:`sigpropy.TimeSeries.trim`.
+
+        Parameters
+        ----------
+        start_time : float
+            New time-zero in seconds.
+        end_time : float
+            New end-time in seconds.
+
+        Returns
+        -------
+        None
+            Updates the attributes `nsamples` and `delay`.
+
+        """
+        super().trim(start_time, end_time)
+        self._delay = start_time
+
+    def zero_pad(self, df):
+        """Append zeros to `amp` to achieve a desired frequency step.
+
+        Note for exact results, `1/(df*dt)` must be an integer,
+        otherwise a `df` close to the desired `df` will be returned.
+
+        Parameters
+        ----------
+        df : float
+            Desired frequency step in Hertz.
+
+        Returns
+        -------
+        None
+            Instead modifies attributes: `amp`, `nsamples`, `multiple`.
+
+        Raises
+        ------
+        ValueError
+            If `df` < 0 (i.e., non-positive).
+
+        """
+        df = float(df)
+        logger.info(f"zero_pad(df={df})")
+        self._multiple = 1
+        if df <= 0:
+            raise ValueError(f"df must be positive, currently {df}.")
+
+        new_nsamples_float = 1/(df*self.dt)
+        new_nsamples = int(round(new_nsamples_float))
+        if new_nsamples_float != new_nsamples:
+            msg = "  `1/(df*dt)` is not an integer results will be approximate."
+            logger.warning(msg)
+
+        # If new_nsamples > nsamples, pad zeros.
+        if new_nsamples > self.nsamples:
+            padding = new_nsamples - self.nsamples
+        # If new_nsamples < nsamples, pad zeros to achieve a multiple
+        # of new_nsamples (i.e.,  a fraction of df). After processing,
+        # extract the results at the frequencies of interest.
+        elif new_nsamples < self.nsamples:
+            # If df_old is already an integer of df_new
+            if self.nsamples % new_nsamples == 0:
+                self._multiple = int(self.nsamples/new_nsamples)
+                return
+            # If df_old is not already an integer of df_new, pad existing series.
+            else:
+                padding = new_nsamples - (self.nsamples % new_nsamples)
+                self._multiple = int((self.nsamples + padding) / new_nsamples)
+        # If new_samples == nsamples, do nothing.
+        else:
+            return
+
+        self._amp = np.concatenate((self._amp, np.zeros((1, padding))), axis=1)
+
+    @staticmethod
+    def crosscorr(a, b, correlate_kwargs=None, exclude=("nsamples")):
+        """Cross correlation of two `ActiveTimeSeries` objects.
+
+        Parameters
+        ----------
+        a : ActiveTimeSeries
+            Base `ActiveTimeSeries` to which `b` is correlated.
+        b: ActiveTimeSeries
+            `ActiveTimeSeries` correlated to `a`.
+        correlate_kwargs : dict, optional
+            `dict` of keyword argument for the correlate function, see
+            `scipy.signal.correlate <https://docs.scipy.org/doc/scipy/reference/generated/scipy.signal.correlate.html>`_
+            for details.
+        exclude : tuple, optional
+            `tuple` of attributes to exclude in an is_similar
+            comparison, default is `('nsamples')`.
+
+        Returns
+        -------
+        ndarray
+            Containing the cross correlation.
+
+        """
+        if not a._is_similar(b, exclude=exclude):
+            raise ValueError("`a` and `b` must be similar.")
+
+        if correlate_kwargs is None:
+            correlate_kwargs = {}
+
+        return correlate(a.amplitude, b.amplitude, **correlate_kwargs)
+
+    @staticmethod
+    def crosscorr_shift(a, b, exclude=None):
+        """Shift `b` so that it is maximally corrlated with `a`.
+
+        Parameters
+        ----------
+        a : ActiveTimeSeries
+            `ActiveTimeSeries` to which `b` will be correlated. `a`
+            should be similar to `b`.
+        b : ActiveTimeSeries
+            `ActiveTimeSeries` which will be shifted so that it is
+            maximally correlated with `a`. `b` should be similar to `a`.
+        exclude : tuple, optional
+            `tuple` of attributes to exclude in an is_similar
+            comparison, default is `('nsamples')`.
+
+        Returns
+        -------
+        ndarray
+            Which represents the stack of the correlated and padded `b`
+            onto `a`.
+
+        """
+        corr = ActiveTimeSeries.crosscorr(a, b, exclude=exclude)
+        maxcorr_location = np.argmax(corr)
+        shifts = (maxcorr_location+1)-b.nsamples
+        if shifts > 0:
+            return (shifts, np.concatenate((np.zeros(shifts), b.amplitude[:-shifts])))
+        elif shifts < 0:
+            return (shifts, np.concatenate((b.amplitude[abs(shifts):], np.zeros(abs(shifts)))))
+        else:
+            return (shifts, np.array(b.amplitude))
+
+    @classmethod
+    def from_cross_stack(cls, a, b):
+        """Create `ActiveTimeSeries` from cross-correlation.
+
+        Cross-correlate `b` to `a` and shift `b` such that it is
+        maximally correlated with `a`. Then stack the shifted version
+        of `b` onto `a`.
+
+        Parameters
+        ----------
+        a : ActiveTimeSeries
+            `ActiveTimeSeries` to which `b` will be correlated and
+            stacked. `a` should be similar to `b`.
+        b : ActiveTimeSeries
+            `ActiveTimeSeries` which will be correlated with and stacked
+            onto `a`. `b` should be similar to `a`.
+
+        Return
+        ------
+        ActiveTimeSeries
+            Which represents the correlated and potentially zero-padded
+            `b` stacked onto `a`.
+
+        """
+        obj = cls.from_activetimeseries(a)
+        b_copy = cls.from_activetimeseries(b)
+        _, shifted_amplitude = cls.crosscorr_shift(
+            a, b_copy, exclude=("nsamples", "nstacks"))
+        b_copy._amp = np.expand_dims(shifted_amplitude, axis=0)
+        obj.stack_append(b_copy)
+        return obj
+
+    def _is_similar(self, other, exclude=None):
+        """Check if `other` is similar to `self`."""
+        if exclude is None:
+            exclude = []
+
+        if not isinstance(other, ActiveTimeSeries):
+            return False
+
+        for attr in ["dt", "nstacks", "delay", "nsamples"]:
+            if attr in exclude:
+                continue
+            if getattr(self, attr) != getattr(other, attr):
+                return False
+        return True
+
+    def __eq__(self, other):
+        """Check if `other` is equal to `self`."""
+        if not self._is_similar(other):
+            return False
+
+        if not np.allclose(self.amplitude, other.amplitude):
+            return False
+
+        return True
+
+    def __repr__(self):
+        """Unambiguous representation of the object."""
+        return f"ActiveTimeSeries(dt={self.dt}, amplitude={self.amplitude}, nstacks={self._nstacks}, delay={self._delay})"
+
+    def __str__(self):
+        """Human-readable representation of the object."""
+        return f"ActiveTimeSeries with:\n\tdt={self.dt}\n\tnsamples={self.nsamples}\n\tnstacks={self._nstacks}\n\tdelay={self._delay}"
diff --git a/swprocess/array1d.py b/swprocess/array1d.py
index 86ed49f..5fbb5e7 100644
--- a/swprocess/array1d.py
+++ b/swprocess/array1d.py
@@ -1,889 +1,889 @@
-# This file is part of swprocess, a Python package for surface wave processing.
-# Copyright (C) 2020 Joseph P. Vantassel (joseph.p.vantassel@gmail.com)
-#
-#     This program is free software: you can redistribute it and/or modify
-#     it under the terms of the GNU General Public License as published by
-#     the Free Software Foundation, either version 3 of the License, or
-#     (at your option) any later version.
-#
-#     This program is distributed in the hope that it will be useful,
-#     but WITHOUT ANY WARRANTY; without even the implied warranty of
-#     MERCHANTABILITY or FITNESS FOR A PARTICULAR PURPOSE.  See the
-#     GNU General Public License for more details.
-#
-#     You should have received a copy of the GNU General Public License
-#     along with this program.  If not, see <https: //www.gnu.org/licenses/>.
-
-"""Array1D class definition."""
-
-import logging
-import warnings
-
-import numpy as np
-import obspy
-from obspy.io.segy.segy import SEGYTraceHeader
-import matplotlib.pyplot as plt
-from scipy import signal
-
-from swprocess.source import SourceWithSignal
-
-from .interact import ginput_session
-from swprocess import Source, Sensor1C
-
-logger = logging.getLogger("swprocess.array1d")
-
-
-class Array1D():
-    """A class to organize the information for a 1D (linear) array.
-
-    Attributes
-    ----------
-    sensors : list of Sensor1C
-        Sensors which compose the 1D array.
-    source : Source
-        Source for active shot gather.
-
-    """
-
-    @staticmethod
-    def _check_array(sensors, source):
-        example = sensors[0]
-        positions = [example.x]
-
-        # Ensure sensors are "similar"
-        for sensor in sensors[1:]:
-            if not example._is_similar(sensor, exclude=["x", "y", "z"]):
-                raise ValueError("All sensors must be similar.")
-            if sensor.x in positions:
-                raise ValueError("Sensors must have unique x positions.")
-            positions.append(sensor.x)
-
-        # Sort sensors in terms of x from small to large
-        indices = np.argsort(positions)
-        sensors = [sensors[i] for i in indices]
-
-        return (sensors, source)
-
-    def __init__(self, sensors, source):
-        """Initialize from an iterable of `Sensor1C`s and a `Source`.
-
-        Parameters
-        ----------
-        sensors : iterable of Sensor1c
-            Iterable of initialized `Sensor1C` objects.
-        source : Source
-            Initialized `Source` object.
-
-        Returns
-        -------
-        Array1D
-            Initialized `Array1D` object.
-
-        """
-        logger.info("Initializing Array1D")
-        self.sensors, self.source = self._check_array(sensors, source)
-
-    def timeseriesmatrix(self, detrend=False, normalize="none"):
-        """Sensor amplitudes as 2D `ndarray`.
-
-        Parameters
-        ----------
-        detrend : bool, optional
-            Boolean to control whether a linear detrending operation is
-            performed, default is `False` so no detrending is performed.
-        normalize : {"none", "each", "all"}, optional
-            Enable different normalizations to be performed. `"each"`
-            normalizes each traces by its maximum. `"all"` normalizes
-            all traces by the same maximum. Default is `"none"` so no
-            normalization is performed.
-
-        Returns
-        -------
-        ndarray
-            Of shape `(nchannels, nsamples)` where each row is the
-            amplitude of a given sensor.
-
-        """
-        matrix = np.empty((self.nchannels, self[0].nsamples))
-        for i, sensor in enumerate(self.sensors):
-            _amp = sensor.amplitude
-            amp = signal.detrend(_amp) if detrend else _amp
-            amp = amp/np.max(np.abs(amp)) if normalize == "each" else amp
-            matrix[i, :] = amp
-
-        if normalize == "all":
-            matrix /= np.max(np.abs(matrix))
-
-        return matrix
-
-    def position(self, normalize=False):
-        """Array's sensor positions as `list`.
-
-        Parameters
-        ----------
-        normalize : bool, optional
-            Determines whether the array positions are shifted such
-            that the first sensor is located at x=0.
-
-        """
-        if normalize:
-            position_0 = self.sensors[0].x
-            return [sensor.x - position_0 for sensor in self.sensors]
-        else:
-            return [sensor.x for sensor in self.sensors]
-
-    @property
-    def offsets(self):
-        """Receiver offsets relative to source position as `list`."""
-        positions = self.position(normalize=False)
-        offsets = []
-        for position in positions:
-            offsets.append(abs(self.source._x - position))
-        return offsets
-
-    @property
-    def kres(self):
-        """The array's resolution wavenumber."""
-        return np.pi / min(np.diff(self.position()))
-
-    @property
-    def nchannels(self):
-        """Number of `Sensors` in the array."""
-        return len(self.sensors)
-
-    @property
-    def array_center_distance(self):
-        return np.mean(self.offsets)
-
-    @property
-    def spacing(self):
-        position = self.position()
-        min_spacing = min(np.diff(position))
-        max_spacing = max(np.diff(position))
-        if (max_spacing - min_spacing) < 1E-2:
-            return round(min_spacing, 2)
-        else:
-            raise ValueError("spacing undefined for non-equally spaced arrays")
-
-    @property
-    def _source_inside(self):
-        sx = self.source.x
-        position = self.position(normalize=False)
-        return ((sx > position[0]) and (sx < position[-1]))
-
-    def trim(self, start_time, end_time):
-        """Trim time series belonging to each Sensor1C.
-
-        Parameters
-        ----------
-        start_time, end_time: float
-            Desired start time and end time in seconds measured from the
-            point the acquisition system was triggered.
-
-        Returns
-        -------
-        None
-            Updates internal attributes.
-
-        """
-        for sensor in self.sensors:
-            sensor.trim(start_time, end_time)
-
-    def trim_offsets(self, min_offset, max_offset):
-        """Remove sensors outside of the offsets specified.
-
-        Parameters
-        ----------
-        min_offset, max_offset : float
-            Specify the minimum and maximum allowable offset in meters.
-
-        Return
-        ------
-        None
-            Updates internal attributes.
-
-        """
-        sensors = []
-        for offset, sensor in zip(self.offsets, self.sensors):
-            if (offset > min_offset) and (offset < max_offset):
-                sensors.append(sensor)
-
-        if len(sensors) == 0:
-            msg = "Removing all sensors at offsets between "
-            msg += f"{min_offset} and {max_offset}, results in no sensors."
-            raise ValueError(msg)
-
-        self.sensors = sensors
-
-    def zero_pad(self, df):
-        """Append zero to sensors to achieve a desired frequency step.
-
-        Parameters
-        ----------
-        df : float
-            Desired linear frequency step in Hertz.
-
-        Returns
-        -------
-        None
-            Instead modifies `sensors`.
-
-        """
-        for sensor in self.sensors:
-            sensor.zero_pad(df=df)
-
-    @property
-    def _flip_required(self):
-        return True if self.source.x > self.position(normalize=False)[-1] else False
-
-    def waterfall(self, ax=None, time_ax="y", amplitude_detrend=True,
-                  amplitude_normalization="each", amplitude_scale=None,
-                  position_normalization=False, plot_kwargs=None):
-        """Create waterfall plot for this array setup.
-
-        Parameters
-        ----------
-        ax : Axes, optional
-            Axes on which to plot, default is `None` indicating a
-            `Figure` and `Axes` will be generated on-the-fly.
-        time_ax : {'x', 'y'}, optional
-            Denotes the time axis, 'y' is the default.
-        amplitude_detrend : bool, optional
-            Boolean to control whether a linear detrending operation is
-            performed, default is `False` so no detrending is performed.
-        amplitude_normalization : {"none", "each", "all"}, optional
-            Enable different normalizations including:
-            `"each"` which normalizes each traces by its maximum,
-            `"all"` which normalizes all traces by the same maximum, and
-            `"none"` which perform no normalization, default is
-            `"each"`.
-        amplitude_scale : float, optional
-            Factor by which each trace is multiplied, default is `None`
-            which uses a factor equal to half the average receiver
-            receiver spacing.
-        position_normalization : bool, optional
-            Determines whether the array positions are shifted such
-            that the first sensor is located at x=0.
-        plot_kwargs : None, dict, optional
-            Kwargs for `matplotlib.pyplot.plot <https://matplotlib.org/3.3.1/api/_as_gen/matplotlib.pyplot.plot.html>`_
-            to control the style of each trace, default is `None`.
-
-        Returns
-        -------
-        Tuple
-            Of the form `(fig, ax)` where `fig` is the figure object
-            and `ax` the axes object on which the schematic is plotted,
-            if `ax=None`.
-
-        """
-        # Create axes (if required)
-        ax_was_none = False
-        if ax is None:
-            ax_was_none = True
-            if time_ax == "x":
-                size = (6, 4)
-            elif time_ax == "y":
-                size = (4, 6)
-            else:
-                msg = f"time_ax = {time_ax} not recognized, use 'x' or 'y'."
-                raise ValueError(msg)
-            fig, ax = plt.subplots(figsize=size)
-
-        # Prepare waterfall data.
-        time = self[0].time
-        traces = self.timeseriesmatrix(detrend=amplitude_detrend,
-                                       normalize=amplitude_normalization)
-        positions = self.position(normalize=position_normalization)
-        if amplitude_scale is None:
-            amplitude_scale = np.mean(np.diff(positions))/2
-        for i, position in enumerate(positions):
-            traces[i, :] *= amplitude_scale
-            traces[i, :] += position
-
-        # Allow custom plotting kwargs.
-        if plot_kwargs is None:
-            plot_kwargs = {}
-        default_kwargs = dict(color="b", linewidth=0.5)
-        kwargs = {**default_kwargs, **plot_kwargs}
-
-        # Plot waveforms.
-        if time_ax == "x":
-            for trace in traces:
-                ax.plot(time, trace, **kwargs)
-                kwargs["label"] = None
-        else:
-            for trace in traces:
-                ax.plot(trace, time, **kwargs)
-                kwargs["label"] = None
-
-        dist_ax = "x" if time_ax == "y" else "y"
-        if time_ax == "x":
-            time_tuple = (min(time), max(time))
-        else:
-            time_tuple = (max(time), min(time))
-        getattr(ax, f"set_{time_ax}lim")(time_tuple)
-
-        spacing = positions[1] - positions[0]
-        getattr(ax, f"set_{dist_ax}lim")(positions[0]-spacing,
-                                         positions[-1]+spacing)
-        getattr(ax, "grid")(axis=time_ax, linestyle=":")
-        getattr(ax, f"set_{time_ax}label")("Time (s)")
-        getattr(ax, f"set_{dist_ax}label")("Distance (m)")
-
-        for label in list("xy"):
-            ax.tick_params(label, length=4, width=1, which='major')
-
-        if ax_was_none:
-            fig.tight_layout()
-            return (fig, ax)
-
-    def plot(self, ax=None, sensor_kwargs=None, source_kwargs=None):
-        """Plot a schematic of the `Array1D` object.
-
-        The schematic shows the position of the receivers and source
-        and lists the total number of receivers and their spacing.
-
-        Parameters
-        ----------
-        ax : Axis, optional
-            Axes on which to plot, default is `None` indicating a
-            `Figure` and `Axis` will be generated on-the-fly.
-        sensor_kwargs, source_kwargs : None, dict, optional
-            Kwargs for `matplotlib.pyplot.plot <https://matplotlib.org/3.3.1/api/_as_gen/matplotlib.pyplot.plot.html>`_
-            to control the plotting of the sensors and source,
-            respectively. Default is `None`, indicating the predefined
-            default values will be used.
-
-        Returns
-        -------
-        Tuple
-            Of the form (fig, ax) where `fig` is the figure object and
-            `ax` the axes object on which the schematic is plotted, if
-            `ax=None`.
-
-        """
-        # Create axis on the fly.
-        ax_was_none = False
-        if ax is None:
-            ax_was_none = True
-            fig, ax = plt.subplots(figsize=(6, 2))
-
-        # Plot sensors.
-        xs = [sensor.x for sensor in self.sensors]
-        ys = [sensor.y for sensor in self.sensors]
-        default_sensor_kwargs = dict(marker="^", color="k",
-                                     linestyle="", label="Sensor")
-
-        if sensor_kwargs is None:
-            sensor_kwargs = {}
-        sensor_kwargs = {**default_sensor_kwargs, **sensor_kwargs}
-        ax.plot(xs, ys, **sensor_kwargs)
-
-        # List number of sensors and their spacing.
-        number_txt = f"Number of sensors: {self.nchannels}"
-        try:
-            spacing_txt = f"Sensor spacing: {self.spacing} m."
-        except ValueError:
-            spacing_txt = "Sensor spacing is not constant."
-        source_txt = f"Source @ {round(self.source.x, 2)} m."
-        ax.text(0.03, 0.95, f"{number_txt}\n{spacing_txt}\n{source_txt}",
-                transform=ax.transAxes, va="top", ha="left")
-
-        # Plot source.
-        default_source_kwargs = dict(marker="D", color="b",
-                                     linestyle="", label="Source")
-        if source_kwargs is None:
-            source_kwargs = {}
-        source_kwargs = {**default_source_kwargs, **source_kwargs}
-        ax.plot(self.source.x, self.source.y, **source_kwargs)
-
-        # General figure settings.
-        ymin, ymax = ax.get_ylim()
-        ax.set_ylim([min(ymin, -2), max(ymax, 5)])
-        ax.set_xlabel("Distance (m)")
-        ax.legend()
-
-        # Return figure and axes objects if generated on the fly.
-        if ax_was_none:
-            return (fig, ax)
-
-    def auto_pick_first_arrivals(self, algorithm="threshold",
-                                 **algorithm_kwargs):
-        if algorithm == "threshold":
-            picks = self._pick_on_threshold(**algorithm_kwargs)
-        else:
-            raise NotImplementedError
-        return picks
-
-    def _pick_on_threshold(self, threshold=0.05):
-        """
-
-        Parameters
-        ----------
-        threshold : {0.-1.}, optional
-            Picking threshold as a percent.
-
-        """
-        traces = self.timeseriesmatrix(detrend=True, normalize="each")
-        time = self.sensors[0].time
-
-        times = []
-        for trace in traces:
-            pindices = np.argwhere(abs(trace-np.mean(trace[:10])) > threshold)
-            index = int(pindices.flatten()[0])
-            times.append(time[index])
-
-        return (self.position(), times)
-
-    def manual_pick_first_arrivals(self, waterfall_kwargs=None):
-        """Allow for interactive picking of first arrivals.
-
-        Parameters
-        ----------
-        waterfall_kwargs : dict, optional
-            Dictionary of keyword arguments for
-            meth: `<Array1D.waterfall>`, default is `None` indicating
-            default keyword arguments.
-
-        Returns
-        -------
-        Tuple
-            Of the form (distance, picked_time)
-
-        """
-        if waterfall_kwargs is None:
-            waterfall_kwargs = {}
-
-        _, ax = self.waterfall(**waterfall_kwargs)
-
-        pairs = self._ginput_session(ax, npts=np.inf)
-
-        if ax.get_xlabel() == "Distance (m)":
-            distance, time = pairs
-        else:
-            time, distance = pairs
-
-        return (distance, time)
-
-    @staticmethod
-    def _ginput_session(*args, **kwargs):
-        return ginput_session(*args, **kwargs)
-
-    def interactive_mute(self, mute_location="both", window_kwargs=None,
-                         waterfall_kwargs=None):
-        """Interactively select source window boundary.
-
-        Parameters
-        ----------
-        mute_location : {"before", "after", "both"}, optional
-            Select which part of the record to mute, default is `"both"`
-            indicating two lines defining the source window boundary
-            will be required.
-        window_kwargs : dict, optional
-            Dictionary of keyword arguments defining the signal window,
-            see `scipy.singal.windows.tukey <https://docs.scipy.org/doc/scipy/reference/generated/scipy.signal.windows.tukey.html>`_
-            for available options.
-        waterfall_kwargs : dict, optional
-            Dictionary of keyword arguments defining how the waterfall
-            should be created, see `:meth Array1D.waterfall` for
-            the available options.
-
-        Returns
-        -------
-        tuple
-            Of the form `(signal_start, signal_end)`.
-
-        """
-        # Create waterfall plot.
-        default_waterfall_kwargs = dict(time_ax="y")
-        if waterfall_kwargs is None:
-            waterfall_kwargs = {}
-        waterfall_kwargs = {**default_waterfall_kwargs, **waterfall_kwargs}
-        _, ax = self.waterfall(**waterfall_kwargs)
-
-        # Parse x, y to distance, time
-        def parse(xs, ys, time_ax=waterfall_kwargs["time_ax"]):
-            if time_ax == "y":
-                return ((xs[0], ys[0]), (xs[1], ys[1]))
-            else:
-                return ((ys[0], xs[0]), (ys[1], xs[1]))
-
-        # Define the start of the signal.
-        if (mute_location == "before") or (mute_location == "both"):
-            xs, ys = self._ginput_session(ax, npts=2,
-                                          initial_adjustment=False,
-                                          ask_to_continue=False)
-            ax.plot(xs, ys, color="r", linewidth=0.5)
-            signal_start = parse(xs, ys)
-        else:
-            signal_start = None
-
-        # Define the end of the signal.
-        if (mute_location == "after") or (mute_location == "both"):
-            xs, ys = self._ginput_session(ax, npts=2,
-                                          initial_adjustment=False,
-                                          ask_to_continue=False)
-            ax.plot(xs, ys, color="r", linewidth=0.5)
-            signal_end = parse(xs, ys)
-        else:
-            signal_end = None
-
-        # Perform mute.
-        self.mute(signal_start=signal_start,
-                  signal_end=signal_end,
-                  window_kwargs=window_kwargs)
-
-        return (signal_start, signal_end)
-
-    def mute(self, signal_start=None, signal_end=None, window_kwargs=None):
-        """Mute traces outside of a narrow signal window.
-
-        Parameters
-        ----------
-        signal_start, signal_end : iterable of floats, optional
-            Two points to define start and stop of the narrow signal
-            window of the form
-            `((pt1_dist, pt1_time), (pt2_dist, pt2_time))`, default is
-            `None` .
-        window_kwargs : dict, optional
-            Dictionary of keyword arguments defining the signal window,
-            see `scipy.singal.windows.tukey <https://docs.scipy.org/doc/scipy/reference/generated/scipy.signal.windows.tukey.html>`_
-            for available options.
-
-        Returns
-        -------
-        None
-            Modifies the object internal state.
-
-        """
-        # General variables common to intercept calculations.
-        position = np.array(self.position())
-        dt = self[0].dt
-        delay = self[0].delay
-        ndelay = -delay/dt
-        nsamples = self[0].nsamples
-
-        # Define starting index for each trace.
-        if signal_start is not None:
-            ((x1, t1), (x2, t2)) = signal_start
-            slope = (t2 - t1) / (x2 - x1)
-            times = t1 + slope*(position - x1)
-            start_indices = np.array((times / dt) + ndelay, dtype=int)
-        else:
-            start_indices = np.zeros_like(position, dtype=int)
-
-        # Define stopping index for each trace.
-        if signal_end is not None:
-            ((x1, t1), (x2, t2)) = signal_end
-            slope = (t2 - t1) / (x2 - x1)
-            times = t1 + slope*(position - x1)
-            stop_indices = np.array((times / dt) + ndelay, dtype=int)
-        else:
-            stop_indices = np.ones_like(position, dtype=int) * (nsamples-1)
-
-        # Portions of the window beyond the record have nothing to keep.
-        start_indices = np.clip(start_indices, 0, nsamples)
-        stop_indices = np.clip(stop_indices, start_indices, nsamples)
-
-        # Define default windowing to be Tukey w/ 20% taper (10% on each side).
-        if window_kwargs is None:
-            window_kwargs = dict(alpha=0.2)
-
-        # TODO (jpv): Windowing can be pushed down into Sensor object.
-        # Perform windowing.
-        window = np.zeros(nsamples)
-        for i, (start, stop) in enumerate(zip(start_indices, stop_indices)):
-            window[start:stop] = signal.windows.tukey(stop-start,
-                                                      **window_kwargs)
-            self.sensors[i]._amp *= window
-            window *= 0
-
-    def _flipped_tseries_and_offsets(self):
-        """Timeseriesmatrix and offsets, flipped from near to far."""
-        if self._flip_required:
-            offsets = self.offsets[::-1]
-            tmatrix = np.flipud(self.timeseriesmatrix())
-        else:
-            offsets = self.offsets
-            tmatrix = self.timeseriesmatrix()
-        offsets = np.array(offsets)
-        return (tmatrix, offsets)
-
-    @classmethod
-    def from_files(cls, fnames, map_x=lambda x: x, map_y=lambda y: y, obspy_read_kwargs=None):
-        """Initialize an `Array1D` object from one or more data files.
-
-        This classmethod creates an `Array1D` object by reading the
-        header information in the provided file(s). Each file
-        should contain multiple traces where each trace corresponds to a
-        single receiver. Currently supported file types are SEG2 and SU.
-
-        Parameters
-        ----------
-        fnames : str or iterable
-            File name or iterable of file names. If multiple files
-            are provided the traces are stacked.
-        map_x, map_y : function, optional
-            Convert x and y coordinates using some function, default
-            is not transformation. Can be useful for converting between
-            coordinate systems.
-        obspy_read_kwargs : dict, optional
-            Keyword arguments to be passed to the obspy.read().
-
-        Returns
-        -------
-        Array1D
-            Initialized `Array1d` object.
-
-        Raises
-        ------
-        TypeError
-            If `fnames` is not of type `str` or `iterable`.
-
-        """
-        if isinstance(fnames, str):
-            fnames = [fnames]
-        
-        try:
-            iter(fnames)
-        except TypeError:
-            fnames = [str(fnames)]
-
-        if obspy_read_kwargs is None:
-            obspy_read_kwargs = {}
-
-        # Read traces from first file
-        with warnings.catch_warnings():
-            warnings.simplefilter("ignore")
-            stream = obspy.read(str(fnames[0]), **obspy_read_kwargs)
-
-        # Create array of sensors
-        sensors = []
-        for trace in stream.traces:
-            sensor = Sensor1C.from_trace(trace, map_x=map_x, map_y=map_y)
-            sensors.append(sensor)
-
-        # Define source
-        _format = trace.stats._format
-        if _format == "SEG2":
-            def parse_source(stats):
-                x = float(stats.seg2.SOURCE_LOCATION)
-                return Source(x=map_x(x), y=0, z=0)
-
-        elif _format == "SU":
-            def parse_source(stats):
-                if stats.su.trace_header["coordinate_units"] == 0:
-                    msg = "Coordinate units is unset, assuming length in meters and not degrees minutes seconds."
-                    warnings.warn(msg)
-                elif stats.su.trace_header["coordinate_units"] != 1:
-                    msg = "Coordinate units must be in units of length, not degrees minutes seconds."
-                    raise ValueError(msg)
-
-                scaleco = int(stats.su.trace_header["scalar_to_be_applied_to_all_coordinates"])
-                if scaleco == 0:
-                    msg = "Resetting scale to be applied to all coordinates from zero to one."
-                    warnings.warn(msg)
-                    scaleco = 1
-
-                int_x = int(stats.su.trace_header["source_coordinate_x"])
-                x = int_x / abs(scaleco) if scaleco < 0 else int_x * scaleco
-                x = round(x, -np.sign(scaleco) * int(np.log10(abs(scaleco))))
-
-                int_y = int(stats.su.trace_header["source_coordinate_y"])
-                y = int_y / abs(scaleco) if scaleco < 0 else int_y * scaleco
-                y = round(y, -np.sign(scaleco) * int(np.log10(abs(scaleco))))
-
-                return Source(x=map_x(x), y=map_y(y), z=0)
-
-        elif _format == "SEGY":
-            def parse_source(stats):
-                if stats.segy.trace_header["coordinate_units"] == 0:
-                    msg = "Coordinate units is unset, assuming length in meters and not degrees minutes seconds."
-                    warnings.warn(msg)
-                elif stats.segy.trace_header["coordinate_units"] != 1:
-                    msg = "Coordinate units must be in units of length, not degrees minutes seconds."
-                    raise ValueError(msg)
-
-                scaleco = int(
-                    stats.segy.trace_header["scalar_to_be_applied_to_all_coordinates"])
-                if scaleco == 0:
-                    msg = "Resetting scale to be applied to all coordinates from zero to one."
-                    warnings.warn(msg)
-                    scaleco = 1
-
-                int_x = int(stats.segy.trace_header["source_coordinate_x"])
-                x = int_x / abs(scaleco) if scaleco < 0 else int_x * scaleco
-                x = round(x, -np.sign(scaleco) * int(np.log10(abs(scaleco))))
-
-                int_y = int(stats.segy.trace_header["source_coordinate_y"])
-                y = int_y / abs(scaleco) if scaleco < 0 else int_y * scaleco
-                y = round(y, -np.sign(scaleco) * int(np.log10(abs(scaleco))))
-
-                return Source(x=map_x(x), y=map_y(y), z=0)
-
-        source = parse_source(trace.stats)
-        obj = cls(sensors, source)
-
-        # Stack additional traces, if necessary
-        if len(fnames) > 0:
-            for fname in fnames[1:]:
-                with warnings.catch_warnings():
-                    warnings.simplefilter("ignore")
-                    stream = obspy.read(str(fname), **obspy_read_kwargs)
-                nsource = parse_source(stream[0].stats)
-                if nsource != source:
-                    msg = f"fname = {fname} has an incompatible source."
-                    raise ValueError(msg)
-                new_sensors = [Sensor1C.from_trace(trace, map_x=map_x, map_y=map_y)
-                               for trace in stream.traces]
-                if len(new_sensors) != obj.nchannels:
-                    msg = f"fname = {fname} has an incompatible number of traces."
-                    raise ValueError(msg)
-                new_sensors.sort(key=lambda new_sensor: new_sensor.x)
-                for sensor, new_sensor in zip(obj.sensors, new_sensors):
-                    sensor.stack_append(new_sensor)
-
-        return obj
-
-    @classmethod
-    def from_array1d(cls, array1d):
-        """Create a deep copy of an existing `Array1D` object."""
-        sensors = []
-        for _sensor in array1d.sensors:
-            sensors.append(Sensor1C.from_sensor1c(_sensor))
-        source = Source.from_source(array1d.source)
-        obj = cls(sensors, source)
-        return obj
-
-    # su
-    # https://pubs.usgs.gov/of/2001/of01-326/HTML/FILEFORM.HTM
-    # https://wiki.seismic-unix.org/sudoc:su_data_format
-    # http://web.mit.edu/cwpsu_v44r1/sumanual_600dpi_letter.pdf
-
-    # segy
-    # https://sioseis.ucsd.edu/segy.header.html
-    # https://library.seg.org/pb-assets/technical-standards/seg_y_rev2_0-mar2017-1686080998003.pdf
-    def to_file(self, fname, ftype="su"):
-        if ftype != "su":
-            raise ValueError(f"ftype = {ftype} not recognized.")
-
-        stream = obspy.Stream()
-
-        def rint(x): return int(round(x))
-
-        for sensor in self.sensors:
-            trace = obspy.Trace(np.array(sensor.amplitude, dtype=np.float32))
-            trace.stats.delta = sensor.dt
-            trace.stats.starttime = obspy.UTCDateTime(2020, 12, 18, 10, 0, 0)
-
-            if not hasattr(trace.stats, 'su'):
-                trace.stats.su = {}
-            trace.stats.su.trace_header = SEGYTraceHeader()
-            trace.stats.su.trace_header.scalar_to_be_applied_to_all_coordinates = -1000
-            trace.stats.su.trace_header.source_coordinate_x = rint(
-                self.source._x*1000)
-            trace.stats.su.trace_header.source_coordinate_y = rint(
-                self.source._y*1000)
-            trace.stats.su.trace_header.number_of_horizontally_stacked_traces_yielding_this_trace = rint(
-                sensor.nstacks)
-            trace.stats.su.trace_header.delay_recording_time = rint(
-                sensor.delay*1000)
-            trace.stats.su.trace_header.group_coordinate_x = rint(
-                sensor.x*1000)
-            trace.stats.su.trace_header.group_coordinate_y = rint(
-                sensor.y*1000)
-            trace.stats.su.trace_header.coordinate_units = 1
-
-            stream.append(trace)
-
-        stream.write(filename=fname, format="SU")
-
-    def is_similar(self, other):
-        """Check if `other` is similar to `self`."""
-        if not isinstance(other, (Array1D,)):
-            return False
-
-        for attr in ["nchannels", "source"]:
-            if getattr(self, attr) != getattr(other, attr):
-                return False
-
-        return True
-
-    def __eq__(self, other):
-        """Define how `other` can be equal to `self`."""
-        if not self.is_similar(other):
-            return False
-
-        for my, ur in zip(self.sensors, other.sensors):
-            if my != ur:
-                return False
-
-        return True
-
-    def __getitem__(self, index):
-        """Select sensor by index."""
-        return self.sensors[index]
-
-
-class Array1DwSource(Array1D):
-
-    def __init__(self, sensors, source):
-        super().__init__(sensors, source)
-
-    @classmethod
-    def from_files(cls, fnames_rec, fnames_src, src_channel,
-                   map_x=lambda x: x, map_y=lambda y: y):
-        _cls = Array1D.from_files(fnames=fnames_rec, map_x=map_x, map_y=map_y)
-
-        # TODO (jpv): Badly assume fnames_src is a properly formatted list.
-        trace = obspy.read(str(fnames_src[0]))[src_channel]
-        dt = trace.meta.delta
-        amp = trace.data
-        for fname in fnames_src[1:]:
-            trace = obspy.read(str(fname))[src_channel]
-            amp += trace.data
-        amp /= len(fnames_src)
-
-        source = SourceWithSignal(_cls.source.x,
-                                  _cls.source.y,
-                                  _cls.source.z,
-                                  amp,
-                                  dt)
-
-        return cls(_cls.sensors, source)
-
-    def xcorrelate(self, vmin=None, vmax=None):
-
-        # TODO (jpv): Check dt for source and signal
-        # TODO (jpv): Size of source and receiver signal
-
-        if vmax is None:
-            vmax = 3000
-
-        if vmin is None:
-            vmin = 50
-
-        min_offset, max_offset = min(self.offsets), max(self.offsets)
-
-        tmin = min_offset/vmax
-        # TODO (jpv): Revisit minimum time add fudge factor for now.
-        idx_dx_tmin = int((tmin-0.5)/self.source.dt)
-
-        tmax = max_offset/vmin
-        idx_dx_tmax = int(tmax/self.source.dt)
-
-        # start correlation at/near zero lag position.
-        src_amp = self.source.amplitude
-        idx_zero = self.source.nsamples
-        idx_min, idx_max = idx_zero+idx_dx_tmin, idx_zero+idx_dx_tmax
-
-        sensors = []
-        for sensor in self.sensors:
-            corr = signal.correlate(sensor.amplitude, src_amp)
-            corr = corr[idx_min:idx_max]
-            sensor = Sensor1C(corr, dt=sensor.dt,
-                              x=sensor.x, y=sensor.y, z=sensor.z,
-                              nstacks=sensor.nstacks, delay=0)
-            sensors.append(sensor)
-
-        self.sensors = sensors
+# This file is part of swprocess, a Python package for surface wave processing.
+# Copyright (C) 2020 Joseph P. Vantassel (joseph.p.vantassel@gmail.com)
+#
+#     This program is free software: you can redistribute it and/or modify
+#     it under the terms of the GNU General Public License as published by
+#     the Free Software Foundation, either version 3 of the License, or
+#     (at your option) any later version.
+#
+#     This program is distributed in the hope that it will be useful,
+#     but WITHOUT ANY WARRANTY; without even the implied warranty of
+#     MERCHANTABILITY or FITNESS FOR A PARTICULAR PURPOSE.  See the
+#     GNU General Public License for more details.
+#
+#     You should have received a copy of the GNU General Public License
+#     along with this program.  If not, see <https: //www.gnu.org/licenses/>.
+
+"""Array1D class definition."""
+
+import logging
+import warnings
+
+import numpy as np
+import obspy
+from obspy.io.segy.segy import SEGYTraceHeader
+import matplotlib.pyplot as plt
+from scipy import signal
+
+from swprocess.source import SourceWithSignal
+
+from .interact import ginput_session
+from swprocess import Source, Sensor1C
+
+logger = logging.getLogger("swprocess.array1d")
+
+
+class Array1D():
+    """A class to organize the information for a 1D (linear) array.
+
+    Attributes
+    ----------
+    sensors : list of Sensor1C
+        Sensors which compose the 1D array.
+    source : Source
+        Source for active shot gather.
+
+    """
+
+    @staticmethod
+    def _check_array(sensors, source):
+        example = sensors[0]
+        positions = [example.x]
+
+        # Ensure sensors are "similar"
+        for sensor in sensors[1:]:
+            if not example._is_similar(sensor, exclude=["x", "y", "z"]):
+                raise ValueError("All sensors must be similar.")
+            if sensor.x in positions:
+                raise ValueError("Sensors must have unique x positions.")
+            positions.append(sensor.x)
+
+        # Sort sensors in terms of x from small to large
+        indices = np.argsort(positions)
+        sensors = [sensors[i] for i in indices]
+
+        return (sensors, source)
+
+    def __init__(self, sensors, source):
+        """Initialize from an iterable of `Sensor1C`s and a `Source`.
+
+        Parameters
+        ----------
+        sensors : iterable of Sensor1c
+            Iterable of initialized `Sensor1C` objects.
+        source : Source
+            Initialized `Source` object.
+
+        Returns
+        -------
+        Array1D
+            Initialized `Array1D` object.
+
+        """
+        logger.info("Initializing Array1D")
+        self.sensors, self.source = self._check_array(sensors, source)
+
+    def timeseriesmatrix(self, detrend=False, normalize="none"):
+        """Sensor amplitudes as 2D `ndarray`.
+
+        Parameters
+        ----------
+        detrend : bool, optional
+            Boolean to control whether a linear detrending operation is
+            performed, default is `False` so no detrending is performed.
+        normalize : {"none", "each", "all"}, optional
+            Enable different normalizations to be performed. `"each"`
+            normalizes each traces by its maximum. `"all"` normalizes
+            all traces by the same maximum. Default is `"none"` so no
+            normalization is performed.
+
+        Returns
+        -------
+        ndarray
+            Of shape `(nchannels, nsamples)` where each row is the
+            amplitude of a given sensor.
+
+        """
+        matrix = np.empty((self.nchannels, self[0].nsamples))
+        for i, sensor in enumerate(self.sensors):
+            _amp = sensor.amplitude
+            amp = signal.detrend(_amp) if detrend else _amp
+            amp = amp/np.max(np.abs(amp)) if normalize == "each" else amp
+            matrix[i, :] = amp
+
+        if normalize == "all":
+            matrix /= np.max(np.abs(matrix))
+
+        return matrix
+
+    def position(self, normalize=False):
+        """Array's sensor positions as `list`.
+
+        Parameters
+        ----------
+        normalize : bool, optional
+            Determines whether the array positions are shifted such
+            that the first sensor is located at x=0.
+
+        """
+        if normalize:
+            position_0 = self.sensors[0].x
+            return [sensor.x - position_0 for sensor in self.sensors]
+        else:
+            return [sensor.x for sensor in self.sensors]
+
+    @property
+    def offsets(self):
+        """Receiver offsets relative to source position as `list`."""
+        positions = self.position(normalize=False)
+        offsets = []
+        for position in positions:
+            offsets.append(abs(self.source._x - position))
+        return offsets
+
+    @property
+    def kres(self):
+        """The array's resolution wavenumber."""
+        return np.pi / min(np.diff(self.position()))
+
+    @property
+    def nchannels(self):
+        """Number of `Sensors` in the array."""
+        return len(self.sensors)
+
+    @property
+    def array_center_distance(self):
+        return np.mean(self.offsets)
+
+    @property
+    def spacing(self):
+        position = self.position()
+        min_spacing = min(np.diff(position))
+        max_spacing = max(np.diff(position))
+        if (max_spacing - min_spacing) < 1E-2:
+            return round(min_spacing, 2)
+        else:
+            raise ValueError("spacing undefined for non-equally spaced arrays")
+
+    @property
+    def _source_inside(self):
+        sx = self.source.x
+        position = self.position(normalize=False)
+        return ((sx > position[0]) and (sx < position[-1]))
+
+    def trim(self, start_time, end_time):
+        """Trim time series belonging to each Sensor1C.
+
+        Parameters
+        ----------
+        start_time, end_time: float
+            Desired start time and end time in seconds measured from the
+            point the acquisition system was triggered.
+
+        Returns
+        -------
+        None
+            Updates internal attributes.
+
+        """
+        for sensor in self.sensors:
+            sensor.trim(start_time, end_time)
+
+    def trim_offsets(self, min_offset, max_offset):
+        """Remove sensors outside of the offsets specified.
+
+        Parameters
+        ----------
+        min_offset, max_offset : float
+            Specify the minimum and maximum allowable offset in meters.
+
+        Return
+        ------
+        None
+            Updates internal attributes.
+
+        """
+        sensors = []
+        for offset, sensor in zip(self.offsets, self.sensors):
+            if (offset > min_offset) and (offset < max_offset):
+                sensors.append(sensor)
+
+        if len(sensors) == 0:
+            msg = "Removing all sensors at offsets between "
+            msg += f"{min_offset} and {max_offset}, results in no sensors."
+            raise ValueError(msg)
+
+        self.sensors = sensors
+
+    def zero_pad(self, df):
+        """Append zero to sensors to achieve a desired frequency step.
+
+        Parameters
+        ----------
+        df : float
+            Desired linear frequency step in Hertz.
+
+        Returns
+        -------
+        None
+            Instead modifies `sensors`.
+
+        """
+        for sensor in self.sensors:
+            sensor.zero_pad(df=df)
+
+    @property
+    def _flip_required(self):
+        return True if self.source.x > self.position(normalize=False)[-1] else False
+
+    def waterfall(self, ax=None, time_ax="y", amplitude_detrend=True,
+                  amplitude_normalization="each", amplitude_scale=None,
+                  position_normalization=False, plot_kwargs=None):
+        """Create waterfall plot for this array setup.
+
+        Parameters
+        ----------
+        ax : Axes, optional
+            Axes on which to plot, default is `None` indicating a
+            `Figure` and `Axes` will be generated on-the-fly.
+        time_ax : {'x', 'y'}, optional
+            Denotes the time axis, 'y' is the default.
+        amplitude_detrend : bool, optional
+            Boolean to control whether a linear detrending operation is
+            performed, default is `False` so no detrending is performed.
+        amplitude_normalization : {"none", "each", "all"}, optional
+            Enable different normalizations including:
+            `"each"` which normalizes each traces by its maximum,
+            `"all"` which normalizes all traces by the same maximum, and
+            `"none"` which perform no normalization, default is
+            `"each"`.
+        amplitude_scale : float, optional
+            Factor by which each trace is multiplied, default is `None`
+            which uses a factor equal to half the average receiver
+            receiver spacing.
+        position_normalization : bool, optional
+            Determines whether the array positions are shifted such
+            that the first sensor is located at x=0.
+        plot_kwargs : None, dict, optional
+            Kwargs for `matplotlib.pyplot.plot <https://matplotlib.org/3.3.1/api/_as_gen/matplotlib.pyplot.plot.html>`_
+            to control the style of each trace, default is `None`.
+
+        Returns
+        -------
+        Tuple
+            Of the form `(fig, ax)` where `fig` is the figure object
+            and `ax` the axes object on which the schematic is plotted,
+            if `ax=None`.
+
+        """
+        # Create axes (if required)
+        ax_was_none = False
+        if ax is None:
+            ax_was_none = True
+            if time_ax == "x":
+                size = (6, 4)
+            elif time_ax == "y":
+                size = (4, 6)
+            else:
+                msg = f"time_ax = {time_ax} not recognized, use 'x' or 'y'."
+                raise ValueError(msg)
+            fig, ax = plt.subplots(figsize=size)
+
+        # Prepare waterfall data.
+        time = self[0].time
+        traces = self.timeseriesmatrix(detrend=amplitude_detrend,
+                                       normalize=amplitude_normalization)
+        positions = self.position(normalize=position_normalization)
+        if amplitude_scale is None:
+            amplitude_scale = np.mean(np.diff(positions))/2
+        for i, position in enumerate(positions):
+            traces[i, :] *= amplitude_scale
+            traces[i, :] += position
+
+        # Allow custom plotting kwargs.
+        if plot_kwargs is None:
+            plot_kwargs = {}
+        default_kwargs = dict(color="b", linewidth=0.5)
+        kwargs = {**default_kwargs, **plot_kwargs}
+
+        # Plot waveforms.
+        if time_ax == "x":
+            for trace in traces:
+                ax.plot(time, trace, **kwargs)
+                kwargs["label"] = None
+        else:
+            for trace in traces:
+                ax.plot(trace, time, **kwargs)
+                kwargs["label"] = None
+
+        dist_ax = "x" if time_ax == "y" else "y"
+        if time_ax == "x":
+            time_tuple = (min(time), max(time))
+        else:
+            time_tuple = (max(time), min(time))
+        getattr(ax, f"set_{time_ax}lim")(time_tuple)
+
+        spacing = positions[1] - positions[0]
+        getattr(ax, f"set_{dist_ax}lim")(positions[0]-spacing,
+                                         positions[-1]+spacing)
+        getattr(ax, "grid")(axis=time_ax, linestyle=":")
+        getattr(ax, f"set_{time_ax}label")("Time (s)")
+        getattr(ax, f"set_{dist_ax}label")("Distance (m)")
+
+        for label in list("xy"):
+            ax.tick_params(label, length=4, width=1, which='major')
+
+        if ax_was_none:
+            fig.tight_layout()
+            return (fig, ax)
+
+    def plot(self, ax=None, sensor_kwargs=None, source_kwargs=None):
+        """Plot a schematic of the `Array1D` object.
+
+        The schematic shows the position of the receivers and source
+        and lists the total number of receivers and their spacing.
+
+        Parameters
+        ----------
+        ax : Axis, optional
+            Axes on which to plot, default is `None` indicating a
+            `Figure` and `Axis` will be generated on-the-fly.
+        sensor_kwargs, source_kwargs : None, dict, optional
+            Kwargs for `matplotlib.pyplot.plot <https://matplotlib.org/3.3.1/api/_as_gen/matplotlib.pyplot.plot.html>`_
+            to control the plotting of the sensors and source,
+            respectively. Default is `None`, indicating the predefined
+            default values will be used.
+
+        Returns
+        -------
+        Tuple
+            Of the form (fig, ax) where `fig` is the figure object and
+            `ax` the axes object on which the schematic is plotted, if
+            `ax=None`.
+
+        """
+        # Create axis on the fly.
+        ax_was_none = False
+        if ax is None:
+            ax_was_none = True
+            fig, ax = plt.subplots(figsize=(6, 2))
+
+        # Plot sensors.
+        xs = [sensor.x for sensor in self.sensors]
+        ys = [sensor.y for sensor in self.sensors]
+        default_sensor_kwargs = dict(marker="^", color="k",
+                                     linestyle="", label="Sensor")
+
+        if sensor_kwargs is None:
+            sensor_kwargs = {}
+        sensor_kwargs = {**default_sensor_kwargs, **sensor_kwargs}
+        ax.plot(xs, ys, **sensor_kwargs)
+
+        # List number of sensors and their spacing.
+        number_txt = f"Number of sensors: {self.nchannels}"
+        try:
+            spacing_txt = f"Sensor spacing: {self.spacing} m."
+        except ValueError:
+            spacing_txt = "Sensor spacing is not constant."
+        source_txt = f"Source @ {round(self.source.x, 2)} m."
+        ax.text(0.03, 0.95, f"{number_txt}\n{spacing_txt}\n{source_txt}",
+                transform=ax.transAxes, va="top", ha="left")
+
+        # Plot source.
+        default_source_kwargs = dict(marker="D", color="b",
+                                     linestyle="", label="Source")
+        if source_kwargs is None:
+            source_kwargs = {}
+        source_kwargs = {**default_source_kwargs, **source_kwargs}
+        ax.plot(self.source.x, self.source.y, **source_kwargs)
+
+        # General figure settings.
+        ymin, ymax = ax.get_ylim()
+        ax.set_ylim([min(ymin, -2), max(ymax, 5)])
+        ax.set_xlabel("Distance (m)")
+        ax.legend()
+
+        # Return figure and axes objects if generated on the fly.
+        if ax_was_none:
+            return (fig, ax)
+
+    def auto_pick_first_arrivals(self, algorithm="threshold",
+                                 **algorithm_kwargs):
+        if algorithm == "threshold":
+            picks = self._pick_on_threshold(**algorithm_kwargs)
+        else:
+            raise NotImplementedError
+        return picks
+
+    def _pick_on_threshold(self, threshold=0.05):
+        """
+
+        Parameters
+        ----------
+        threshold : {0.-1.}, optional
+            Picking threshold as a percent.
+
+        """
+        traces = self.timeseriesmatrix(detrend=True, normalize="each")
+        time = self.sensors[0].time
+
+        times = []
+        for trace in traces:
+            pindices = np.argwhere(abs(trace-np.mean(trace[:10])) > threshold)
+            index = int(pindices.flatten()[0])
+            times.append(time[index])
+
+        return (self.position(), times)
+
+    def manual_pick_first_arrivals(self, waterfall_kwargs=None):
+        """Allow for interactive picking of first arrivals.
+
+        Parameters
+        ----------
+        waterfall_kwargs : dict, optional
+            Dictionary of keyword arguments for
+            meth: `<Array1D.waterfall>`, default is `None` indicating
+            default keyword arguments.
+
+        Returns
+        -------
+        Tuple
+            Of the form (distance, picked_time)
+
+        """
+        if waterfall_kwargs is None:
+            waterfall_kwargs = {}
+
+        _, ax = self.waterfall(**waterfall_kwargs)
+
+        pairs = self._ginput_session(ax, npts=np.inf)
+
+        if ax.get_xlabel() == "Distance (m)":
+            distance, time = pairs
+        else:
+            time, distance = pairs
+
+        return (distance, time)
+
+    @staticmethod
+    def _ginput_session(*args, **kwargs):
+        return ginput_session(*args, **kwargs)
+
+    def interactive_mute(self, mute_location="both", window_kwargs=None,
+                         waterfall_kwargs=None):
+        """Interactively select source window boundary.
+
+        Parameters
+        ----------
+        mute_location : {"before", "after", "both"}, optional
+            Select which part of the record to mute, default is `"both"`
+            indicating two lines defining the source window boundary
+            will be required.
+        window_kwargs : dict, optional
+            Dictionary of keyword arguments defining the signal window,
+            see `scipy.singal.windows.tukey <https://docs.scipy.org/doc/scipy/reference/generated/scipy.signal.windows.tukey.html>`_
+            for available options.
+        waterfall_kwargs : dict, optional
+            Dictionary of keyword arguments defining how the waterfall
+            should be created, see `:meth Array1D.waterfall` for
+            the available options.
+
+        Returns
+        -------
+        tuple
+            Of the form `(signal_start, signal_end)`.
+
+        """
+        # Create waterfall plot.
+        default_waterfall_kwargs = dict(time_ax="y")
+        if waterfall_kwargs is None:
+            waterfall_kwargs = {}
+        waterfall_kwargs = {**default_waterfall_kwargs, **waterfall_kwargs}
+        _, ax = self.waterfall(**waterfall_kwargs)
+
+        # Parse x, y to distance, time
+        def parse(xs, ys, time_ax=waterfall_kwargs["time_ax"]):
+            if time_ax == "y":
+                return ((xs[0], ys[0]), (xs[1], ys[1]))
+            else:
+                return ((ys[0], xs[0]), (ys[1], xs[1]))
+
+        # Define the start of the signal.
+        if (mute_location == "before") or (mute_location == "both"):
+            xs, ys = self._ginput_session(ax, npts=2,
+                                          initial_adjustment=False,
+                                          ask_to_continue=False)
+            ax.plot(xs, ys, color="r", linewidth=0.5)
+            signal_start = parse(xs, ys)
+        else:
+            signal_start = None
+
+        # Define the end of the signal.
+        if (mute_location == "after") or (mute_location == "both"):
+            xs, ys = self._ginput_session(ax, npts=2,
+                                          initial_adjustment=False,
+                                          ask_to_continue=False)
+            ax.plot(xs, ys, color="r", linewidth=0.5)
+            signal_end = parse(xs, ys)
+        else:
+            signal_end = None
+
+        # Perform mute.
+        self.mute(signal_start=signal_start,
+                  signal_end=signal_end,
+                  window_kwargs=window_kwargs)
+
+        return (signal_start, signal_end)
+
+    def mute(self, signal_start=None, signal_end=None, window_kwargs=None):
+        """Mute traces outside of a narrow signal window.
+
+        Parameters
+        ----------
+        signal_start, signal_end : iterable of floats, optional
+            Two points to define start and stop of the narrow signal
+            window of the form
+            `((pt1_dist, pt1_time), (pt2_dist, pt2_time))`, default is
+            `None` .
+        window_kwargs : dict, optional
+            Dictionary of keyword arguments defining the signal window,
+            see `scipy.singal.windows.tukey <https://docs.scipy.org/doc/scipy/reference/generated/scipy.signal.windows.tukey.html>`_
+            for available options.
+
+        Returns
+        -------
+        None
+            Modifies the object internal state.
+
+        """
+        # General variables common to intercept calculations.
+        position = np.array(self.position())
+        dt = self[0].dt
+        delay = self[0].delay
+        ndelay = -delay/dt
+        nsamples = self[0].nsamples
+
+        # Define starting index for each trace.
+        if signal_start is not None:
+            ((x1, t1), (x2, t2)) = signal_start
+            slope = (t2 - t1) / (x2 - x1)
+            times = t1 + slope*(position - x1)
+            start_indices = np.array((times / dt) + ndelay, dtype=int)
+        else:
+            start_indices = np.zeros_like(position, dtype=int)
+
+        # Define stopping index for each trace.
+        if signal_end is not None:
+            ((x1, t1), (x2, t2)) = signal_end
+            slope = (t2 - t1) / (x2 - x1)
+            times = t1 + slope*(position - x1)
+            stop_indices = np.array((times / dt) + ndelay, dtype=int)
+        else:
+            stop_indices = np.ones_like(position, dtype=int) * (nsamples-1)
+
+        # Portions of the window beyond the record have nothing to keep.
+        start_indices = np.clip(start_indices, 0, nsamples)
+        stop_indices = np.clip(stop_indices, start_indices, nsamples)
+
+        # Define default windowing to be Tukey w/ 20% taper (10% on each side).
+        if window_kwargs is None:
+            window_kwargs = dict(alpha=0.2)
+
+        # TODO (jpv): Windowing can be pushed down into Sensor object.
+        # Perform windowing.
+        window = np.zeros(nsamples)
+        for i, (start, stop) in enumerate(zip(start_indices, stop_indices)):
+            window[start:stop] = signal.windows.tukey(stop-start,
+                                                      **window_kwargs)
+            self.sensors[i]._amp *= window
+            window *= 0
+
+    def _flipped_tseries_and_offsets(self):
+        """Timeseriesmatrix and offsets, flipped from near to far."""
+        if self._flip_required:
+            offsets = self.offsets[::-1]
+            tmatrix = np.flipud(self.timeseriesmatrix())
+        else:
+            offsets = self.offsets
+            tmatrix = self.timeseriesmatrix()
+        offsets = np.array(offsets)
+        return (tmatrix, offsets)
+
+    @classmethod
+    def from_files(cls, fnames, map_x=lambda x: x, map_y=lambda y: y, obspy_read_kwargs=None):
+        """Initialize an `Array1D` object from one or more data files.
+
+        This classmethod creates an `Array1D` object by reading the
+        header information in the provided file(s). Each file
+        should contain multiple traces where each trace corresponds to a
+        single receiver. Currently supported file types are SEG2 and SU.
+
+        Parameters
+        ----------
+        fnames : str or iterable
+            File name or iterable of file names. If multiple files
+            are provided the traces are stacked.
+        map_x, map_y : function, optional
+            Convert x and y coordinates using some function, default
+            is not transformation. Can be useful for converting between
+            coordinate systems.
+        obspy_read_kwargs : dict, optional
+            Keyword arguments to be passed to the obspy.read().
+
+        Returns
+        -------
+        Array1D
+            Initialized `Array1d` object.
+
+        Raises
+        ------
+        TypeError
+            If `fnames` is not of type `str` or `iterable`.
+
+        """
+        if isinstance(fnames, str):
+            fnames = [fnames]
+        
+        try:
+            iter(fnames)
+        except TypeError:
+            fnames = [str(fnames)]
+
+        if obspy_read_kwargs is None:
+            obspy_read_kwargs = {}
+
+        # Read traces from first file
+        with warnings.catch_warnings():
+            warnings.simplefilter("ignore")
+            stream = obspy.read(str(fnames[0]), **obspy_read_kwargs)
+
+        # Create array of sensors
+        sensors = []
+        for trace in stream.traces:
+            sensor = Sensor1C.from_trace(trace, map_x=map_x, map_y=map_y)
+            sensors.append(sensor)
+
+        # Define source
+        _format = trace.stats._format
+        if _format == "SEG2":
+            def parse_source(stats):
+                x = float(stats.seg2.SOURCE_LOCATION)
+                return Source(x=map_x(x), y=0, z=0)
+
+        elif _format == "SU":
+            def parse_source(stats):
+                if stats.su.trace_header["coordinate_units"] == 0:
+                    msg = "Coordinate units is unset, assuming length in meters and not degrees minutes seconds."
+                    warnings.warn(msg)
+                elif stats.su.trace_header["coordinate_units"] != 1:
+                    msg = "Coordinate units must be in units of length, not degrees minutes seconds."
+                    raise ValueError(msg)
+
+                scaleco = int(stats.su.trace_header["scalar_to_be_applied_to_all_coordinates"])
+                if scaleco == 0:
+                    msg = "Resetting scale to be applied to all coordinates from zero to one."
+                    warnings.warn(msg)
+                    scaleco = 1
+
+                int_x = int(stats.su.trace_header["source_coordinate_x"])
+                x = int_x / abs(scaleco) if scaleco < 0 else int_x * scaleco
+                x = round(x, -np.sign(scaleco) * int(np.log10(abs(scaleco))))
+
+                int_y = int(stats.su.trace_header["source_coordinate_y"])
+                y = int_y / abs(scaleco) if scaleco < 0 else int_y * scaleco
+                y = round(y, -np.sign(scaleco) * int(np.log10(abs(scaleco))))
+
+                return Source(x=map_x(x), y=map_y(y), z=0)
+
+        elif _format == "SEGY":
+            def parse_source(stats):
+                if stats.segy.trace_header["coordinate_units"] == 0:
+                    msg = "Coordinate units is unset, assuming length in meters and not degrees minutes seconds."
+                    warnings.warn(msg)
+                elif stats.segy.trace_header["coordinate_units"] != 1:
+                    msg = "Coordinate units must be in units of length, not degrees minutes seconds."
+                    raise ValueError(msg)
+
+                scaleco = int(
+                    stats.segy.trace_header["scalar_to_be_applied_to_all_coordinates"])
+                if scaleco == 0:
+                    msg = "Resetting scale to be applied to all coordinates from zero to one."
+                    warnings.warn(msg)
+                    scaleco = 1
+
+                int_x = int(stats.segy.trace_header["source_coordinate_x"])
+                x = int_x / abs(scaleco) if scaleco < 0 else int_x * scaleco
+                x = round(x, -np.sign(scaleco) * int(np.log10(abs(scaleco))))
+
+                int_y = int(stats.segy.trace_header["source_coordinate_y"])
+                y = int_y / abs(scaleco) if scaleco < 0 else int_y * scaleco
+                y = round(y, -np.sign(scaleco) * int(np.log10(abs(scaleco))))
+
+                return Source(x=map_x(x), y=map_y(y), z=0)
+
+        source = parse_source(trace.stats)
+        obj = cls(sensors, source)
+
+        # Stack additional traces, if necessary
+        if len(fnames) > 0:
+            for fname in fnames[1:]:
+                with warnings.catch_warnings():
+                    warnings.simplefilter("ignore")
+                    stream = obspy.read(str(fname), **obspy_read_kwargs)
+                nsource = parse_source(stream[0].stats)
+                if nsource != source:
+                    msg = f"fname = {fname} has an incompatible source."
+                    raise ValueError(msg)
+                new_sensors = [Sensor1C.from_trace(trace, map_x=map_x, map_y=map_y)
+                               for trace in stream.traces]
+                if len(new_sensors) != obj.nchannels:
+                    msg = f"fname = {fname} has an incompatible number of traces."
+                    raise ValueError(msg)
+                new_sensors.sort(key=lambda new_sensor: new_sensor.x)
+                for sensor, new_sensor in zip(obj.sensors, new_sensors):
+                    sensor.stack_append(new_sensor)
+
+        return obj
+
+    @classmethod
+    def from_array1d(cls, array1d):
+        """Create a deep copy of an existing `Array1D` object."""
+        sensors = []
+        for _sensor in array1d.sensors:
+            sensors.append(Sensor1C.from_sensor1c(_sensor))
+        source = Source.from_source(array1d.source)
+        obj = cls(sensors, source)
+        return obj
+
+    # su
+    # https://pubs.usgs.gov/of/2001/of01-326/HTML/FILEFORM.HTM
+    # https://wiki.seismic-unix.org/sudoc:su_data_format
+    # http://web.mit.edu/cwpsu_v44r1/sumanual_600dpi_letter.pdf
+
+    # segy
+    # https://sioseis.ucsd.edu/segy.header.html
+    # https://library.seg.org/pb-assets/technical-standards/seg_y_rev2_0-mar2017-1686080998003.pdf
+    def to_file(self, fname, ftype="su"):
+        if ftype != "su":
+            raise ValueError(f"ftype = {ftype} not recognized.")
+
+        stream = obspy.Stream()
+
+        def rint(x): return int(round(x))
+
+        for sensor in self.sensors:
+            trace = obspy.Trace(np.array(sensor.amplitude, dtype=np.float32))
+            trace.stats.delta = sensor.dt
+            trace.stats.starttime = obspy.UTCDateTime(2020, 12, 18, 10, 0, 0)
+
+            if not hasattr(trace.stats, 'su'):
+                trace.stats.su = {}
+            trace.stats.su.trace_header = SEGYTraceHeader()
+            trace.stats.su.trace_header.scalar_to_be_applied_to_all_coordinates = -1000
+            trace.stats.su.trace_header.source_coordinate_x = rint(
+                self.source._x*1000)
+            trace.stats.su.trace_header.source_coordinate_y = rint(
+                self.source._y*1000)
+            trace.stats.su.trace_header.number_of_horizontally_stacked_traces_yielding_this_trace = rint(
+                sensor.nstacks)
+            trace.stats.su.trace_header.delay_recording_time = rint(
+                sensor.delay*1000)
+            trace.stats.su.trace_header.group_coordinate_x = rint(
+                sensor.x*1000)
+            trace.stats.su.trace_header.group_coordinate_y = rint(
+                sensor.y*1000)
+            trace.stats.su.trace_header.coordinate_units = 1
+
+            stream.append(trace)
+
+        stream.write(filename=fname, format="SU")
+
+    def is_similar(self, other):
+        """Check if `other` is similar to `self`."""
+        if not isinstance(other, (Array1D,)):
+            return False
+
+        for attr in ["nchannels", "source"]:
+            if getattr(self, attr) != getattr(other, attr):
+                return False
+
+        return True
+
+    def __eq__(self, other):
+        """Define how `other` can be equal to `self`."""
+        if not self.is_similar(other):
+            return False
+
+        for my, ur in zip(self.sensors, other.sensors):
+            if my != ur:
+                return False
+
+        return True
+
+    def __getitem__(self, index):
+        """Select sensor by index."""
+        return self.sensors[index]
+
+
+class Array1DwSource(Array1D):
+
+    def __init__(self, sensors, source):
+        super().__init__(sensors, source)
+
+    @classmethod
+    def from_files(cls, fnames_rec, fnames_src, src_channel,
+                   map_x=lambda x: x, map_y=lambda y: y):
+        _cls = Array1D.from_files(fnames=fnames_rec, map_x=map_x, map_y=map_y)
+
+        # TODO (jpv): Badly assume fnames_src is a properly formatted list.
+        trace = obspy.read(str(fnames_src[0]))[src_channel]
+        dt = trace.meta.delta
+        amp = trace.data
+        for fname in fnames_src[1:]:
+            trace = obspy.read(str(fname))[src_channel]
+            amp += trace.data
+        amp /= len(fnames_src)
+
+        source = SourceWithSignal(_cls.source.x,
+                                  _cls.source.y,
+                                  _cls.source.z,
+                                  amp,
+                                  dt)
+
+        return cls(_cls.sensors, source)
+
+    def xcorrelate(self, vmin=None, vmax=None):
+
+        # TODO (jpv): Check dt for source and signal
+        # TODO (jpv): Size of source and receiver signal
+
+        if vmax is None:
+            vmax = 3000
+
+        if vmin is None:
+            vmin = 50
+
+        min_offset, max_offset = min(self.offsets), max(self.offsets)
+
+        tmin = min_offset/vmax
+        # TODO (jpv): Revisit minimum time add fudge factor for now.
+        idx_dx_tmin = int((tmin-0.5)/self.source.dt)
+
+        tmax = max_offset/vmin
+        idx_dx_tmax = int(tmax/self.source.dt)
+
+        # start correlation at/near zero lag position.
+        src_amp = self.source.amplitude
+        idx_zero = self.source.nsamples
+        idx_min, idx_max = idx_zero+idx_dx_tmin, idx_zero+idx_dx_tmax
+
+        sensors = []
+        for sensor in self.sensors:
+            corr = signal.correlate(sensor.amplitude, src_amp)
+            corr = corr[idx_min:idx_max]
+            sensor = Sensor1C(corr, dt=sensor.dt,
+                              x=sensor.x, y=sensor.y, z=sensor.z,
+                              nstacks=sensor.nstacks, delay=0)
+            sensors.append(sensor)
+
+        self.sensors = sensors
diff --git a/swprocess/sensor1c.py b/swprocess/sensor1c.py
index be6f845..e8d5689 100644
--- a/swprocess/sensor1c.py
+++ b/swprocess/sensor1c.py
@@ -1,298 +1,298 @@
-# This file is part of swprocess, a Python package for surface wave processing.
-# Copyright (C) 2020 Joseph P. Vantassel (joseph.p.vantassel@gmail.com)
-#
-#     This program is free software: you can redistribute it and/or modify
-#     it under the terms of the GNU General Public License as published by
-#     the Free Software Foundation, either version 3 of the License, or
-#     (at your option) any later version.
-#
-#     This program is distributed in the hope that it will be useful,
-#     but WITHOUT ANY WARRANTY; without even the implied warranty of
-#     MERCHANTABILITY or FITNESS FOR A PARTICULAR PURPOSE.  See the
-#     GNU General Public License for more details.
-#
-#     You should have received a copy of the GNU General Public License
-#     along with this program.  If not, see <https: //www.gnu.org/licenses/>.
-
-"""Sensor1C class definition."""
-
-import logging
-import warnings
-
-import numpy as np
-
-from swprocess import ActiveTimeSeries
-
-logger = logging.getLogger(name=__name__)
-
-
-class Sensor1C(ActiveTimeSeries):
-    """Class for single component sensor objects."""
-
-    def _set_position(self, x, y, z):
-        self._x = float(x)
-        self._y = float(y)
-        self._z = float(z)
-
-    def __init__(self, amplitude, dt, x, y, z, nstacks=1, delay=0):
-        """Initialize `Sensor1C`."""
-        super().__init__(amplitude, dt, nstacks=nstacks, delay=delay)
-        self._set_position(x, y, z)
-
-    @property
-    def x(self):
-        return self._x
-
-    @property
-    def y(self):
-        return self._y
-
-    @property
-    def z(self):
-        return self._z
-
-    @classmethod
-    def from_sensor1c(cls, sensor1c):
-        """Create deep copy of an existing `Sensor1C` object."""
-        arg_map = {"amplitude": lambda x: x, "dt": lambda x: x,
-                   "x": float, "y": float, "z": float}
-        args = [opr(getattr(sensor1c, arg)) for arg, opr in arg_map.items()]
-
-        obj = cls(*args, nstacks=int(sensor1c.nstacks))
-        obj._copy_state(sensor1c)
-        return obj
-
-    @classmethod
-    def from_activetimeseries(cls, activetimeseries, x, y, z):
-        obj = cls(activetimeseries.amplitude, activetimeseries.dt, x, y, z,
-                  nstacks=activetimeseries.nstacks)
-        obj._copy_state(activetimeseries)
-        return obj
-
-    @classmethod
-    def from_trace(cls, trace,
-                   read_header=True, map_x=lambda x: x, map_y=lambda y: y,
-                   nstacks=1, delay=0, x=0, y=0, z=0, format=None):
-        """Create a `Sensor1C` object from a `Trace` object.
-
-        Parameters
-        ----------
-        trace : Trace
-            `Trace` object with attributes `data` and `stats.delta`.
-        read_header : bool
-            Flag to indicate whether the data in the header of the
-            file should be parsed, default is `True` indicating that
-            the header data will be read.
-        map_x, map_y : function, optional
-            Convert x and y coordinates using some function, default
-            is not transformation. Can be useful for converting between
-            coordinate systems.
-        nstacks : int, optional
-            Number of stacks included in the present trace, default
-            is 1 (i.e., no stacking). Ignored if `read_header=True`.
-        delay : float, optional
-            Pre-trigger delay in seconds, default is 0 seconds.
-            Ignored if `read_header=True`.
-        x, y, z : float, optional
-            Receiver's relative position in x, y, and z, default is
-            zero for all components (i.e., the origin). Ignored if
-            `read_header=True`.
-        format : str, optional
-            Define file format, options include {"SEG2", "SU", "SEGY"}.
-
-        Returns
-        -------
-        Sensor1C
-            An initialized `Sensor1C` object.
-
-        Raises
-        ------
-        ValueError
-            If trace type cannot be identified.
-
-        """
-        if format is not None:
-            _format = str(format).upper()
-        else:
-            try:
-                _format = trace.stats._format.upper()
-            except:
-                raise ValueError("Trace type could not be identified.")
-
-        if read_header:
-            if _format == "SEG2":
-                return cls._from_trace_seg2(trace, map_x=map_x, map_y=map_y)
-            elif _format == "SU":
-                return cls._from_trace_su(trace, map_x=map_x, map_y=map_y)
-            elif _format == "SEGY":
-                return cls._from_trace_segy(trace, map_x=map_x, map_y=map_y)
-            else:
-                raise NotImplementedError
-        else:
-            return cls(amplitude=trace.data, dt=trace.stats.delta,
-                       x=x, y=y, z=z, nstacks=nstacks, delay=delay)
-
-    @staticmethod
-    def _safely_get_header(header, name_to_get, default_value, conversion_function):
-        try:
-            value = conversion_function(getattr(header, name_to_get))
-        except:
-            msg = f"Failed to get {name_to_get}, set to {default_value}."
-            warnings.warn(msg)
-            value = default_value
-        return value
-
-    @classmethod
-    def _from_trace_seg2(cls, trace, map_x=lambda x: x, map_y=lambda y: y):
-        """Create a `Sensor1C` object form a SEG2-style `Trace` object.
-
-        Parameters
-        ----------
-        trace : Trace
-            SEG2-style Trace with header information entered correctly.
-        map_x, map_y : function, optional
-            Convert x and y coordinates using some function, default
-            is not transformation. Can be useful for converting between
-            coordinate systems.
-
-        Returns
-        -------
-        Sensor1C
-            An initialized `Sensor1C` object.
-
-        """
-        header = trace.stats.seg2
-
-        return cls.from_trace(trace,
-                              read_header=False,
-                              nstacks=cls._safely_get_header(header, "STACK", 1, int),
-                              delay=cls._safely_get_header(header, "DELAY", 0., float),
-                              x=map_x(cls._safely_get_header(header, "RECEIVER_LOCATION", 0., float)),
-                              y=map_y(0),
-                              z=0)
-
-    @classmethod
-    def _from_trace_su(cls, trace, map_x=lambda x: x, map_y=lambda y: y):
-        """Create a `Sensor1C` object form a SU-style `Trace` object.
-
-        Parameters
-        ----------
-        trace : Trace
-            SU-style trace with header information entered correctly.
-        map_x, map_y : function, optional
-            Convert x and y coordinates using some function, default
-            is not transformation. Can be useful for converting between
-            coordinate systems.
-
-        Returns
-        -------
-        Sensor1C
-            An initialized `Sensor1C` object.
-
-        """
-        header = trace.stats.su.trace_header
-
-        nstack_key = "number_of_horizontally_stacked_traces_yielding_this_trace"
-        nstacks = cls._safely_get_header(header, nstack_key, 1, int)
-        if nstacks == 0:
-            msg = "Resetting nstacks from zero to one."
-            warnings.warn(msg)
-            nstacks = 1
-
-        scaleco = cls._safely_get_header(header, "scalar_to_be_applied_to_all_coordinates", 1, int)
-        if scaleco == 0:
-            msg = "Resetting scale to be applied to all coordinates from zero to one."
-            warnings.warn(msg)
-            scaleco = 1
-
-        int_x = cls._safely_get_header(header, "group_coordinate_x", 0, int)
-        x = int_x / abs(scaleco) if scaleco < 0 else int_x * scaleco
-        x = round(x, -np.sign(scaleco) * int(np.log10(abs(scaleco))))
-
-        int_y = cls._safely_get_header(header, "group_coordinate_y", 0, int)
-        y = int_y / abs(scaleco) if scaleco < 0 else int_y * scaleco
-        y = round(y, -np.sign(scaleco) * int(np.log10(abs(scaleco))))
-
-        return cls.from_trace(trace,
-                              read_header=False,
-                              nstacks=nstacks,
-                              delay=cls._safely_get_header(header, "delay_recording_time", 0, int)/1000,
-                              x=map_x(x),
-                              y=map_y(y),
-                              z=0)
-
-    @classmethod
-    def _from_trace_segy(cls, trace, map_x=lambda x: x, map_y=lambda y: y):
-        """Create a `Sensor1C` object form a SEGY-style `Trace` object.
-
-        Parameters
-        ----------
-        trace : Trace
-            SEGY-style Trace with header information entered correctly.
-        map_x, map_y : function, optional
-            Convert x and y coordinates using some function, default
-            is not transformation. Can be useful for converting between
-            coordinate systems.
-
-        Returns
-        -------
-        Sensor1C
-            An initialized `Sensor1C` object.
-
-        """
-        header = trace.stats.segy.trace_header
-
-        nstack_key = "number_of_horizontally_stacked_traces_yielding_this_trace"
-        nstacks = cls._safely_get_header(header, nstack_key, 1, int)
-        if nstacks == 0:
-            msg = "Resetting nstacks from zero to one."
-            warnings.warn(msg)
-            nstacks = 1
-
-        scaleco = cls._safely_get_header(header, "scalar_to_be_applied_to_all_coordinates", 1, int)
-        if scaleco == 0:
-            msg = "Resetting scale to be applied to all coordinates from zero to one."
-            warnings.warn(msg)
-            scaleco = 1
-
-        int_x = cls._safely_get_header(header, "group_coordinate_x", 0, int)
-        x = int_x / abs(scaleco) if scaleco < 0 else int_x * scaleco
-        x = round(x, -np.sign(scaleco) * int(np.log10(abs(scaleco))))
-
-        int_y = cls._safely_get_header(header, "group_coordinate_y", 0, int)
-        y = int_y / abs(scaleco) if scaleco < 0 else int_y * scaleco
-        y = round(y, -np.sign(scaleco) * int(np.log10(abs(scaleco))))
-
-        return cls.from_trace(trace,
-                              read_header=False,
-                              nstacks=nstacks,
-                              delay=cls._safely_get_header(header, "delay_recording_time", 0, int)/1000,
-                              x=map_x(x),
-                              y=map_y(y),
-                              z=0)
-
-    def _is_similar(self, other, exclude=None):
-        """Check if `other` is similar to `self` though not equal."""
-        if exclude is None:
-            exclude = []
-
-        if not isinstance(other, Sensor1C):
-            return False
-
-        for attr in ["x", "y", "z"]:
-            if attr in exclude:
-                continue
-            if getattr(self, attr) != getattr(other, attr):
-                return False
-
-        if not super()._is_similar(other, exclude=exclude):
-            return False
-
-        return True
-
-    def __eq__(self, other):
-        """Check if `other` is equal to the `Sensor1C`."""
-        if not super().__eq__(other):
-            return False
-
-        return True
+# This file is part of swprocess, a Python package for surface wave processing.
+# Copyright (C) 2020 Joseph P. Vantassel (joseph.p.vantassel@gmail.com)
+#
+#     This program is free software: you can redistribute it and/or modify
+#     it under the terms of the GNU General Public License as published by
+#     the Free Software Foundation, either version 3 of the License, or
+#     (at your option) any later version.
+#
+#     This program is distributed in the hope that it will be useful,
+#     but WITHOUT ANY WARRANTY; without even the implied warranty of
+#     MERCHANTABILITY or FITNESS FOR A PARTICULAR PURPOSE.  See the
+#     GNU General Public License for more details.
+#
+#     You should have received a copy of the GNU General Public License
+#     along with this program.  If not, see <https: //www.gnu.org/licenses/>.
+
+"""Sensor1C class definition."""
+
+import logging
+import warnings
+
+import numpy as np
+
+from swprocess import ActiveTimeSeries
+
+logger = logging.getLogger(name=__name__)
+
+
+class Sensor1C(ActiveTimeSeries):
+    """Class for single component sensor objects."""
+
+    def _set_position(self, x, y, z):
+        self._x = float(x)
+        self._y = float(y)
+        self._z = float(z)
+
+    def __init__(self, amplitude, dt, x, y, z, nstacks=1, delay=0):
+        """Initialize `Sensor1C`."""
+        super().__init__(amplitude, dt, nstacks=nstacks, delay=delay)
+        self._set_position(x, y, z)
+
+    @property
+    def x(self):
+        return self._x
+
+    @property
+    def y(self):
+        return self._y
+
+    @property
+    def z(self):
+        return self._z
+
+    @classmethod
+    def from_sensor1c(cls, sensor1c):
+        """Create deep copy of an existing `Sensor1C` object."""
+        arg_map = {"amplitude": lambda x: x, "dt": lambda x: x,
+                   "x": float, "y": float, "z": float}
+        args = [opr(getattr(sensor1c, arg)) for arg, opr in arg_map.items()]
+
+        obj = cls(*args, nstacks=int(sensor1c.nstacks))
+        obj._copy_state(sensor1c)
+        return obj
+
+    @classmethod
+    def from_activetimeseries(cls, activetimeseries, x, y, z):
+        obj = cls(activetimeseries.amplitude, activetimeseries.dt, x, y, z,
+                  nstacks=activetimeseries.nstacks)
+        obj._copy_state(activetimeseries)
+        return obj
+
+    @classmethod
+    def from_trace(cls, trace,
+                   read_header=True, map_x=lambda x: x, map_y=lambda y: y,
+                   nstacks=1, delay=0, x=0, y=0, z=0, format=None):
+        """Create a `Sensor1C` object from a `Trace` object.
+
+        Parameters
+        ----------
+        trace : Trace
+            `Trace` object with attributes `data` and `stats.delta`.
+        read_header : bool
+            Flag to indicate whether the data in the header of the
+            file should be parsed, default is `True` indicating that
+            the header data will be read.
+        map_x, map_y : function, optional
+            Convert x and y coordinates using some function, default
+            is not transformation. Can be useful for converting between
+            coordinate systems.
+        nstacks : int, optional
+            Number of stacks included in the present trace, default
+            is 1 (i.e., no stacking). Ignored if `read_header=True`.
+        delay : float, optional
+            Pre-trigger delay in seconds, default is 0 seconds.
+            Ignored if `read_header=True`.
+        x, y, z : float, optional
+            Receiver's relative position in x, y, and z, default is
+            zero for all components (i.e., the origin). Ignored if
+            `read_header=True`.
+        format : str, optional
+            Define file format, options include {"SEG2", "SU", "SEGY"}.
+
+        Returns
+        -------
+        Sensor1C
+            An initialized `Sensor1C` object.
+
+        Raises
+        ------
+        ValueError
+            If trace type cannot be identified.
+
+        """
+        if format is not None:
+            _format = str(format).upper()
+        else:
+            try:
+                _format = trace.stats._format.upper()
+            except:
+                raise ValueError("Trace type could not be identified.")
+
+        if read_header:
+            if _format == "SEG2":
+                return cls._from_trace_seg2(trace, map_x=map_x, map_y=map_y)
+            elif _format == "SU":
+                return cls._from_trace_su(trace, map_x=map_x, map_y=map_y)
+            elif _format == "SEGY":
+                return cls._from_trace_segy(trace, map_x=map_x, map_y=map_y)
+            else:
+                raise NotImplementedError
+        else:
+            return cls(amplitude=trace.data, dt=trace.stats.delta,
+                       x=x, y=y, z=z, nstacks=nstacks, delay=delay)
+
+    @staticmethod
+    def _safely_get_header(header, name_to_get, default_value, conversion_function):
+        try:
+            value = conversion_function(getattr(header, name_to_get))
+        except:
+            msg = f"Failed to get {name_to_get}, set to {default_value}."
+            warnings.warn(msg)
+            value = default_value
+        return value
+
+    @classmethod
+    def _from_trace_seg2(cls, trace, map_x=lambda x: x, map_y=lambda y: y):
+        """Create a `Sensor1C` object form a SEG2-style `Trace` object.
+
+        Parameters
+        ----------
+        trace : Trace
+            SEG2-style Trace with header information entered correctly.
+        map_x, map_y : function, optional
+            Convert x and y coordinates using some function, default
+            is not transformation. Can be useful for converting between
+            coordinate systems.
+
+        Returns
+        -------
+        Sensor1C
+            An initialized `Sensor1C` object.
+
+        """
+        header = trace.stats.seg2
+
+        return cls.from_trace(trace,
+                              read_header=False,
+                              nstacks=cls._safely_get_header(header, "STACK", 1, int),
+                              delay=cls._safely_get_header(header, "DELAY", 0., float),
+                              x=map_x(cls._safely_get_header(header, "RECEIVER_LOCATION", 0., float)),
+                              y=map_y(0),
+                              z=0)
+
+    @classmethod
+    def _from_trace_su(cls, trace, map_x=lambda x: x, map_y=lambda y: y):
+        """Create a `Sensor1C` object form a SU-style `Trace` object.
+
+        Parameters
+        ----------
+        trace : Trace
+            SU-style trace with header information entered correctly.
+        map_x, map_y : function, optional
+            Convert x and y coordinates using some function, default
+            is not transformation. Can be useful for converting between
+            coordinate systems.
+
+        Returns
+        -------
+        Sensor1C
+            An initialized `Sensor1C` object.
+
+        """
+        header = trace.stats.su.trace_header
+
+        nstack_key = "number_of_horizontally_stacked_traces_yielding_this_trace"
+        nstacks = cls._safely_get_header(header, nstack_key, 1, int)
+        if nstacks == 0:
+            msg = "Resetting nstacks from zero to one."
+            warnings.warn(msg)
+            nstacks = 1
+
+        scaleco = cls._safely_get_header(header, "scalar_to_be_applied_to_all_coordinates", 1, int)
+        if scaleco == 0:
+            msg = "Resetting scale to be applied to all coordinates from zero to one."
+            warnings.warn(msg)
+            scaleco = 1
+
+        int_x = cls._safely_get_header(header, "group_coordinate_x", 0, int)
+        x = int_x / abs(scaleco) if scaleco < 0 else int_x * scaleco
+        x = round(x, -np.sign(scaleco) * int(np.log10(abs(scaleco))))
+
+        int_y = cls._safely_get_header(header, "group_coordinate_y", 0, int)
+        y = int_y / abs(scaleco) if scaleco < 0 else int_y * scaleco
+        y = round(y, -np.sign(scaleco) * int(np.log10(abs(scaleco))))
+
+        return cls.from_trace(trace,
+                              read_header=False,
+                              nstacks=nstacks,
+                              delay=cls._safely_get_header(header, "delay_recording_time", 0, int)/1000,
+                              x=map_x(x),
+                              y=map_y(y),
+                              z=0)
+
+    @classmethod
+    def _from_trace_segy(cls, trace, map_x=lambda x: x, map_y=lambda y: y):
+        """Create a `Sensor1C` object form a SEGY-style `Trace` object.
+
+        Parameters
+        ----------
+        trace : Trace
+            SEGY-style Trace with header information entered correctly.
+        map_x, map_y : function, optional
+            Convert x and y coordinates using some function, default
+            is not transformation. Can be useful for converting between
+            coordinate systems.
+
+        Returns
+        -------
+        Sensor1C
+            An initialized `Sensor1C` object.
+
+        """
+        header = trace.stats.segy.trace_header
+
+        nstack_key = "number_of_horizontally_stacked_traces_yielding_this_trace"
+        nstacks = cls._safely_get_header(header, nstack_key, 1, int)
+        if nstacks == 0:
+            msg = "Resetting nstacks from zero to one."
+            warnings.warn(msg)
+            nstacks = 1
+
+        scaleco = cls._safely_get_header(header, "scalar_to_be_applied_to_all_coordinates", 1, int)
+        if scaleco == 0:
+            msg = "Resetting scale to be applied to all coordinates from zero to one."
+            warnings.warn(msg)
+            scaleco = 1
+
+        int_x = cls._safely_get_header(header, "group_coordinate_x", 0, int)
+        x = int_x / abs(scaleco) if scaleco < 0 else int_x * scaleco
+        x = round(x, -np.sign(scaleco) * int(np.log10(abs(scaleco))))
+
+        int_y = cls._safely_get_header(header, "group_coordinate_y", 0, int)
+        y = int_y / abs(scaleco) if scaleco < 0 else int_y * scaleco
+        y = round(y, -np.sign(scaleco) * int(np.log10(abs(scaleco))))
+
+        return cls.from_trace(trace,
+                              read_header=False,
+                              nstacks=nstacks,
+                              delay=cls._safely_get_header(header, "delay_recording_time", 0, int)/1000,
+                              x=map_x(x),
+                              y=map_y(y),
+                              z=0)
+
+    def _is_similar(self, other, exclude=None):
+        """Check if `other` is similar to `self` though not equal."""
+        if exclude is None:
+            exclude = []
+
+        if not isinstance(other, Sensor1C):
+            return False
+
+        for attr in ["x", "y", "z"]:
+            if attr in exclude:
+                continue
+            if getattr(self, attr) != getattr(other, attr):
+                return False
+
+        if not super()._is_similar(other, exclude=exclude):
+            return False
+
+        return True
+
+    def __eq__(self, other):
+        """Check if `other` is equal to the `Sensor1C`."""
+        if not super().__eq__(other):
+            return False
+
+        return True
-- 
2.43.0


From 786caa196debd10bd7256689ed503b13b15414e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:13:59 +0000
Subject: [PATCH 20/32] fix: statistics drop positions where no peaks are
 available

---
 swprocess/peakssuite.py | 5 +----
 swprocess/stats.py      | 5 +----
 2 files changed, 2 insertions(+), 8 deletions(-)

diff --git a/swprocess/peakssuite.py b/swprocess/peakssuite.py
index 1736ab8..86c8c07 100644
--- a/swprocess/peakssuite.py
+++ b/swprocess/peakssuite.py
@@ -715,15 +715,12 @@ class PeaksSuite():
     @staticmethod
     def _drop_indices(data_matrix, drop_if_fewer_percent, drop_if_fewer_count):
         """Iterate by row, return rejection indices."""
-        if data_matrix.size == 0:
-            return np.array([], dtype=int)
-
         drop_indices = []
         for index, row in enumerate(data_matrix):
             n_nan = np.sum(np.isnan(row))
             n_tot = len(row)
             n_num = n_tot - n_nan
-            p_num = n_num/n_tot
+            p_num = n_num/n_tot if n_tot > 0 else 0
             if n_num < drop_if_fewer_count or p_num < drop_if_fewer_percent:
                 drop_indices.append(index)
         return np.array(drop_indices, dtype=int)
diff --git a/swprocess/stats.py b/swprocess/stats.py
index 7c6e935..1137a55 100644
--- a/swprocess/stats.py
+++ b/swprocess/stats.py
@@ -195,15 +195,12 @@ class Statistics():
     @staticmethod
     def _drop_indices(data_matrix, drop_if_fewer_percent, drop_if_fewer_count):
         """Iterate by row, return rejection indices."""
-        if data_matrix.size == 0:
-            return np.array([], dtype=int)
-
         drop_indices = []
         for index, row in enumerate(data_matrix):
             n_nan = np.sum(np.isnan(row))
             n_tot = len(row)
             n_num = n_tot - n_nan
-            p_num = n_num/n_tot
+            p_num = n_num/n_tot if n_tot > 0 else 0
             if n_num < drop_if_fewer_count or p_num < drop_if_fewer_percent:
                 drop_indices.append(index)
         return np.array(drop_indices, dtype=int)
-- 
2.43.0


From bd9ae55fbe05a47e1c83d85ace2250ced7e7c3c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:39:55 +0000
Subject: [PATCH 21/32] fix: statistics can be constructed

---
 swprocess/stats.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/swprocess/stats.py b/swprocess/stats.py
index 1137a55..a47b07c 100644
--- a/swprocess/stats.py
+++ b/swprocess/stats.py
@@ -30,7 +30,7 @@ class Statistics():
         self.xx = np.array(xx, dtype=float)
         self.mean = np.array(mean, dtype=float)
         self.stddev = np.array(stddev, dtype=float)
-        self.corr = np.array(corr, dytpe=float)
+        self.corr = np.array(corr, dtype=float)
 
     @classmethod
     def from_peakssuite(cls, peakssuite, xx, xtype="wavelength",
-- 
2.43.0


From 6c851d19cc382babe02885485f58de4cebf82e53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:39:55 +0000
Subject: [PATCH 22/32] fix: regions of missing data end with the last column

---
 swprocess/stats.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/swprocess/stats.py b/swprocess/stats.py
index a47b07c..4ed650c 100644
--- a/swprocess/stats.py
+++ b/swprocess/stats.py
@@ -287,7 +287,7 @@ class Statistics():
             else:  # pragma: no cover
                 raise ValueError("Iteration stopped without breaking.")
 
-            if c_row+1 == nrows and c_col+1 == ncols:
+            if c_col+1 == ncols:
                 break
             else:
                 s_col = int(c_col)+1
-- 
2.43.0


From 098f3686c1cff710fed3326b2111fff143680d5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:20:35 +0000
Subject: [PATCH 23/32] fix: compare padded signal and noise windows that end
 at different multiples

---
 swprocess/snr.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/swprocess/snr.py b/swprocess/snr.py
index 6cc4af9..903bd87 100644
--- a/swprocess/snr.py
+++ b/swprocess/snr.py
@@ -34,6 +34,14 @@ class SignaltoNoiseRatio():
         if pad_snr:
             noise.zero_pad(df_snr)
             signal.zero_pad(df_snr)
+            # Windows longer than 1/df_snr are padded to a multiple of it,
+            # pad the shorter window further to the same length.
+            longer = max(noise, signal, key=lambda array: array[0].nsamples)
+            for array in (noise, signal):
+                if array[0].nsamples < longer[0].nsamples:
+                    array.zero_pad(longer[0]._df)
+        else:
+            longer = noise
 
         # Check signal and noise windows are indeed the same length.
         if noise[0].nsamples != signal[0].nsamples:
@@ -41,7 +49,7 @@ class SignaltoNoiseRatio():
             raise IndexError(msg)
 
         # Frequency vector
-        sensor = noise[0]
+        sensor = longer[0]
         frqs = np.arange(sensor.nsamples) * sensor._df
         Empty = WavefieldTransformRegistry.create_class("empty")
         keep_ids = Empty._frequency_keep_ids(frqs, fmin, fmax, sensor.multiple)
-- 
2.43.0


From 1bf5b400551c739c5ac07daa5da6dde6a347e297 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:06:57 +0000
Subject: [PATCH 24/32] fix: correlation window does not wrap around for short
 records

A window that starts before the first lag became a negative index, so it
selected from the end of the correlation, usually nothing.
---
 swprocess/array1d.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/swprocess/array1d.py b/swprocess/array1d.py
index 5fbb5e7..d6b373e 100644
--- a/swprocess/array1d.py
+++ b/swprocess/array1d.py
@@ -876,6 +876,7 @@ class Array1DwSource(Array1D):
         src_amp = self.source.amplitude
         idx_zero = self.source.nsamples
         idx_min, idx_max = idx_zero+idx_dx_tmin, idx_zero+idx_dx_tmax
+        idx_min = max(idx_min, 0)
 
         sensors = []
         for sensor in self.sensors:
-- 
2.43.0


From 20bb22ed59ea62228bceb88550b0b2580318ac9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:06:57 +0000
Subject: [PATCH 25/32] fix: source signals of integer samples can be averaged

In-place addition and division of an integer array raises.
---
 swprocess/array1d.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/swprocess/array1d.py b/swprocess/array1d.py
index d6b373e..798ceb6 100644
--- a/swprocess/array1d.py
+++ b/swprocess/array1d.py
@@ -838,7 +838,7 @@ class Array1DwSource(Array1D):
         # TODO (jpv): Badly assume fnames_src is a properly formatted list.
         trace = obspy.read(str(fnames_src[0]))[src_channel]
         dt = trace.meta.delta
-        amp = trace.data
+        amp = np.array(trace.data, dtype=float)
         for fname in fnames_src[1:]:
             trace = obspy.read(str(fname))[src_channel]
             amp += trace.data
-- 
2.43.0


From 93a643b2323fb64cb35c0defeb1653f3c280f847 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:06:57 +0000
Subject: [PATCH 26/32] fix: correlation of a data matrix is by position

The matrix had the shape of the data (observations by positions) and each
region was stored at its rows, so any data with other than as many
observations as positions failed or was partly undefined.
---
 swprocess/stats.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/swprocess/stats.py b/swprocess/stats.py
index 4ed650c..2df7f49 100644
--- a/swprocess/stats.py
+++ b/swprocess/stats.py
@@ -107,11 +107,12 @@ class Statistics():
             raise ValueError(msg)
 
         # Calculate correlation coefficients.
-        corr = np.empty_like(data_matrix)
+        ncols = data_matrix.shape[1]
+        corr = np.full((ncols, ncols), np.nan)
         # nan_mask = np.isnan(data_matrix)
         for region in regions:
             ((s_row, s_col), (e_row, e_col)) = region
-            corr[s_row:e_row, s_col:e_col] = np.corrcoef(data_matrix[s_row:e_row, s_col:e_col],
+            corr[s_col:e_col, s_col:e_col] = np.corrcoef(data_matrix[s_row:e_row, s_col:e_col],
                                                          rowvar=False)
 
         # Fill remaining correlation coefficients.
-- 
2.43.0


From 1491654f3caa2af0aa1d7a1e89e9d83399daad7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:06:57 +0000
Subject: [PATCH 27/32] fix: missing correlations are those that are missing

The distances are never nan, so nothing was filled and the fit was given
the nan correlations.
---
 swprocess/stats.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/swprocess/stats.py b/swprocess/stats.py
index 2df7f49..524876e 100644
--- a/swprocess/stats.py
+++ b/swprocess/stats.py
@@ -366,8 +366,8 @@ class Statistics():
             return y0*np.power(decay_factor, x)
 
         def filler(xs, ys, function):
-            invalid_ids = np.flatnonzero(np.isnan(xs))
-            valid_ids = np.flatnonzero(~np.isnan(xs))
+            invalid_ids = np.flatnonzero(np.isnan(ys))
+            valid_ids = np.flatnonzero(~np.isnan(ys))
 
             # Fit functional form to valid entries.
             popt, _ = curve_fit(f=function,
-- 
2.43.0


From a805aa21912a9673bfa9a9b5b4c618f5bc13a1db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:06:57 +0000
Subject: [PATCH 28/32] fix: statistics of a suite are returned

Statistics has no from_array and the result was dropped.
---
 swprocess/stats.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/swprocess/stats.py b/swprocess/stats.py
index 524876e..1ff3ece 100644
--- a/swprocess/stats.py
+++ b/swprocess/stats.py
@@ -36,7 +36,7 @@ class Statistics():
     def from_peakssuite(cls, peakssuite, xx, xtype="wavelength",
                         ytype="velocity"):
         xx, array = peakssuite.to_array(xtype, ytype, xx)
-        cls.from_array(xx, array)
+        return cls.from_data_matrix(xx, array)
 
     @classmethod
     def from_data_matrix(cls, xx, data_matrix, drop_kwargs=None,
-- 
2.43.0


From d9b78898093cbdc6ff655775aa1b11b45894ddf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:30:02 +0000
Subject: [PATCH 29/32] fix: rasterized images can be drawn

ContourSet.collections was removed in matplotlib 3.10, the set is itself
the artist to rasterize.
---
 swprocess/wavefieldtransforms.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/swprocess/wavefieldtransforms.py b/swprocess/wavefieldtransforms.py
index f64376e..8099a82 100644
--- a/swprocess/wavefieldtransforms.py
+++ b/swprocess/wavefieldtransforms.py
@@ -224,7 +224,7 @@ class AbstractWavefieldTransform(ABC):
                           np.linspace(0, np.max(self.power), 21),
                           cmap=mpl.colormaps[cmap])
         if rasterize:
-            for pathcoll in img.collections:
+            for pathcoll in getattr(img, "collections", [img]):
                 pathcoll.set_rasterized(True)
 
         # Plot colorbar for image.
-- 
2.43.0


From 6982e2761f9886152c6d051bdcf62c8a99626665 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:36:49 +0000
Subject: [PATCH 30/32] fix: a refused frequency step leaves the padding of a
 record alone

---
 swprocess/activetimeseries.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/swprocess/activetimeseries.py b/swprocess/activetimeseries.py
index f7fc6d3..ba73b98 100644
--- a/swprocess/activetimeseries.py
+++ b/swprocess/activetimeseries.py
@@ -261,9 +261,9 @@ class ActiveTimeSeries(TimeSeries):
         """
         df = float(df)
         logger.info(f"zero_pad(df={df})")
-        self._multiple = 1
         if df <= 0:
             raise ValueError(f"df must be positive, currently {df}.")
+        self._multiple = 1
 
         new_nsamples_float = 1/(df*self.dt)
         new_nsamples = int(round(new_nsamples_float))
-- 
2.43.0


From 845af2a333fc7e15e7db13f4c49d17333f503494 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:36:49 +0000
Subject: [PATCH 31/32] fix: muting only the start keeps the last sample

---
 swprocess/array1d.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/swprocess/array1d.py b/swprocess/array1d.py
index 798ceb6..767ee8e 100644
--- a/swprocess/array1d.py
+++ b/swprocess/array1d.py
@@ -579,7 +579,7 @@ class Array1D():
             times = t1 + slope*(position - x1)
             stop_indices = np.array((times / dt) + ndelay, dtype=int)
         else:
-            stop_indices = np.ones_like(position, dtype=int) * (nsamples-1)
+            stop_indices = np.ones_like(position, dtype=int) * nsamples
 
         # Portions of the window beyond the record have nothing to keep.
         start_indices = np.clip(start_indices, 0, nsamples)
-- 
2.43.0


From 4867623f8984947d6b69d8a6424a277e20ec52fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:43:38 +0000
Subject: [PATCH 32/32] fix: map the y coordinate of a SEG2 source like that of
 its receivers

---
 swprocess/array1d.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/swprocess/array1d.py b/swprocess/array1d.py
index 767ee8e..4ff766b 100644
--- a/swprocess/array1d.py
+++ b/swprocess/array1d.py
@@ -668,7 +668,7 @@ class Array1D():
         if _format == "SEG2":
             def parse_source(stats):
                 x = float(stats.seg2.SOURCE_LOCATION)
-                return Source(x=map_x(x), y=0, z=0)
+                return Source(x=map_x(x), y=map_y(0), z=0)
 
         elif _format == "SU":
             def parse_source(stats):
-- 
2.43.0

