# --- PulseBase
ref('pb1',(PB,"""            TGRID =  np.linspace(-self._time_window / 2.0,
                                  self._time_window / 2.0,
                                  self._n, endpoint = False) # time grid
            return TGRID""","""            half = 0.5 * self._time_window
            return np.linspace(-half, half, num=self._n, endpoint=False)"""))
ref('pb2',(PB,"""        if not self._ready:
            raise RuntimeError(self._not_ready_msg)
        else:
            return self._V + self._w0""","""        self._require_ready()
        return self._w0 + self._V
    def _require_ready(self):
        if self._ready:
            return
        raise RuntimeError(self._not_ready_msg)"""))
ref('pb3',(PB,"""            VGRID = 2.0*np.pi*np.transpose(np.arange(-self._n/2,
                                                      self._n/2))/(self._n*self._dT) # Frequency grid (angular THz)        
            return VGRID""","""            step = 2.0 * np.pi / self._time_window
            return step * np.arange(-self._n/2, self._n/2)"""))
ref('pb4',(PB,"""        if (self.cache_hash == self._cache_wl_nm_hash):
           return self._cache_wl_nm.copy()
        else:
           self._cache_wl_nm = 2*np.pi*self._c_nmps / self.W_THz
           self._cache_wl_nm_hash = self.cache_hash
           return self._cache_wl_nm.copy()""","""        key = self.cache_hash
        if key != self._cache_wl_nm_hash:
            self._cache_wl_nm = self._c_nmps / self.F_THz
            self._cache_wl_nm_hash = key
        return np.array(self._cache_wl_nm)"""))
ref('pb5',(PB,"""        return (str(self._centerfrequency) + ';' + str(self.NPTS) + ';' +
                str(self._time_window))""","""        return '{0};{1};{2}'.format(self._centerfrequency, self.NPTS, self._time_window)"""))
ref('pb6',(PB,"""        return (str(self._centerfrequency) + ';' + str(self.NPTS) + ';' +
                str(self._time_window))""","""        return ';'.join(str(part) for part in (self._centerfrequency, self.NPTS, self._time_window))"""))
ref('pb7',(PB,"""        if self._frep_MHz is None:
            return None
        else:
            return self._frep_MHz * 1.0e6""","""        return None if self._frep_MHz is None else 1.0e6 * self._frep_MHz"""))
ref('pb8',(PB,"""        if self._AW is None or len(self._AW) != self._n:
            self._AW = np.zeros((self._n,), dtype = np.complex128)
        self._AW[:] = AW_new""","""        fresh = np.empty(self._n, dtype=complex)
        fresh[:] = AW_new
        self._AW = fresh"""))
ref('pb9',(PB,"""        self._ready =  (self._centerfrequency is not None) and\\
                       (self._n is not None) and\\
                       (self._time_window is not None)""","""        needed = (self._centerfrequency, self._n, self._time_window)
        self._ready = all(item is not None for item in needed)"""))
ref('pb10',(PB,"""        self._ready =  (self._centerfrequency is not None) and\\
                       (self._n is not None) and\\
                       (self._time_window is not None)""","""        self._ready = not (self._centerfrequency is None or self._n is None or self._time_window is None)"""))
ref('pb11',(PB,"""        self._set_centerfrequency(self._c_nmps /  (wl * 1.0e9) )""","""        self.set_center_wavelength_nm(1.0e9 * wl)"""))
ref('pb12',(PB,"""            raise RuntimeError('Set number of points before setting time window.')        
        self._set_time_window(T * 1e12)""","""            raise RuntimeError('Set number of points before setting time window.')        
        self.set_time_window_ps(T * 1e12)"""))
ref('pb13',(PB,"""        T = self._n / float(DF)
        self._set_time_window(T * 1e12)                            ""","""        self.set_frequency_window_THz(float(DF) * 1e-12)"""))
ref('pb14',(PB,"""        return self.dT_mks * np.trapz(abs(self.AT)**2)""","""        intensity = np.abs(self.AT)**2
        return np.trapz(intensity, dx=self.dT_mks)"""))
ref('pb15',(PB,"""        return self.dT_mks * np.trapz(abs(self.AT)**2)""","""        field = self.AT
        power = (field * np.conj(field)).real
        return 1e-12 * self.dT_ps * np.trapz(power)"""))
ref('pb16',(PB,"""        self.set_AT(self.AT * np.sqrt( desired_epp_J / self.calc_epp() ) )""","""        scale = (desired_epp_J / self.calc_epp())**0.5
        self.set_AW(scale * self.AW)"""))
ref('pb17',(PB,"""        if w0_THz is None:
            self.set_AW( np.exp(1j * (GDD / 2.0) * self.V_THz**2 + 
                                   1j * (TOD / 6.0) * self.V_THz**3+ 
                                   1j * (FOD / 24.0) * self.V_THz**4) * self.AW )
        else:
            V = self.W_THz - w0_THz
            self.set_AW( np.exp(1j * (GDD / 2.0) * V**2 + 
                                   1j * (TOD / 6.0) * V**3+ 
                                   1j * (FOD / 24.0) * V**4) * self.AW )""","""        V = self.V_THz if w0_THz is None else self.W_THz - w0_THz
        phase = GDD * V**2 / 2.0 + TOD * V**3 / 6.0 + FOD * V**4 / 24.0
        self.apply_phase_W(phase)"""))
ref('pb18',(PB,"""        if w0_THz is None:
            self.set_AW( np.exp(1j * (GDD / 2.0) * self.V_THz**2 + 
                                   1j * (TOD / 6.0) * self.V_THz**3+ 
                                   1j * (FOD / 24.0) * self.V_THz**4) * self.AW )
        else:
            V = self.W_THz - w0_THz
            self.set_AW( np.exp(1j * (GDD / 2.0) * V**2 + 
                                   1j * (TOD / 6.0) * V**3+ 
                                   1j * (FOD / 24.0) * V**4) * self.AW )""","""        if w0_THz is None:
            V = self.V_THz
        else:
            V = self.W_THz - w0_THz
        phase = 0.0
        factorial = 1.0
        for order, coeff in enumerate((GDD, TOD, FOD), start=2):
            factorial = factorial * order
            phase = phase + coeff / factorial * V**order
        self.set_AW(self.AW * np.exp(1j * phase))"""))
ref('pb19',(PB,"""        self.set_AT( self.AT * np.exp(-1j * (chirp2 / 2.0) * (self.T_ps/T0)**2 + 
                                 -1j * (chirp3 / 3.0) * (self.T_ps/T0)**3) )""","""        tau = self.T_ps / T0
        phase = 0.5 * chirp2 * tau**2 + chirp3 * tau**3 / 3.0
        self.set_AT(np.exp(-1j * phase) * self.AT)"""))
ref('pb20',(PB,"""        self.set_AW( ampl * np.exp(1j*(phase-gdd(self.W_THz))) )""","""        fitted = gdd(self.W_THz)
        self.set_AW(ampl * np.exp(1j * phase) * np.exp(-1j * fitted))"""),)
ref('pb21',(PB,"""        mask = ampl**2 > intensity_threshold * np.max(ampl)**2
        gdd     = np.poly1d(np.polyfit(self.W_THz[mask], phase[mask], 2))
        self.set_AW( ampl * np.exp(1j*(phase-gdd(self.W_THz))) )""","""        self._subtract_phase_fit(ampl, phase, intensity_threshold, 2)
    def _subtract_phase_fit(self, ampl, phase, intensity_threshold, order):
        W = self.W_THz
        keep = ampl**2 > intensity_threshold * np.max(ampl)**2
        coeffs = np.polyfit(W[keep], phase[keep], order)
        self.set_AW(ampl * np.exp(1j * (phase - np.polyval(coeffs, W))))"""),
 (PB,"""        mask = ampl**2 > (intensity_threshold * np.max(ampl)**2)        
        ld     = np.poly1d(np.polyfit(self.W_THz[mask], phase[mask], 1))
        self.set_AW( ampl * np.exp(1j*(phase-ld(self.W_THz))) )""","""        self._subtract_phase_fit(ampl, phase, intensity_threshold, 1)"""))
ref('pb22',(PB,"""        phase_ramp = np.exp(-1j*self.W_THz*offset_ps)
        self.set_AW(self.AW * phase_ramp)""","""        self.apply_phase_W(-offset_ps * self.W_THz)"""))
ref('pb23',(PB,"""        num_new_pts = self.NPTS*(2**factor_log2 - 1)
        AT_current = self.AT
        
        self.set_NPTS(self.NPTS * 2**factor_log2)        
        self.set_time_window_ps(self.time_window_ps * 2**factor_log2)
        self._AW = None # Force generation of new array
        if new_pts_loc == "before":
            self.set_AT(np.hstack( (np.zeros(num_new_pts,), AT_current) ))
        elif new_pts_loc == "after":
            self.set_AT(np.hstack( (AT_current, np.zeros(num_new_pts,)) ))            
        elif new_pts_loc == "even":
            pts_before = int(np.floor(num_new_pts * 0.5))
            pts_after  = num_new_pts - pts_before
            self.set_AT(np.hstack( (np.zeros(pts_before,), 
                                    AT_current, 
                                    np.zeros(pts_after,)) ))            
        else:
            raise ValueError("new_pts_loc must be one of 'before', 'after', 'even'")""","""        factor = 2**factor_log2
        num_new_pts = self.NPTS*(factor - 1)
        AT_current = self.AT
        if new_pts_loc == "before":
            pts_before = num_new_pts
        elif new_pts_loc == "after":
            pts_before = 0
        else:
            pts_before = num_new_pts // 2
        padded = np.concatenate((np.zeros(pts_before), AT_current,
                                 np.zeros(num_new_pts - pts_before)))
        self.set_NPTS(factor * self.NPTS)
        self.set_time_window_ps(factor * self.time_window_ps)
        self._AW = None # Force generation of new array
        self.set_AT(padded)"""))
ref('pb24',(PB,"""        rotation = (self.center_frequency_THz-new_center_THz)/self.dF_THz
        self.set_AW(np.roll(self.AW, -1*int(round(rotation))))""","""        shift_bins = int(round((self.center_frequency_THz - new_center_THz) / self.dF_THz))
        self.set_AW(np.roll(self.AW, shift=-shift_bins))"""))
ref('pb25',(PB,"""        working_pulse = self.create_cloned_pulse()
        working_pulse.set_center_wavelength_nm(new_wavelength_nm)
        interpolator = interp1d(self.W_mks, self. AW,
                                bounds_error = False,
                                fill_value = 0.0)
        working_pulse.set_AW(interpolator(working_pulse.W_mks))
        return working_pulse""","""        interpolator = interp1d(self.W_mks, self.AW, fill_value=0.0, bounds_error=False)
        new_pulse = self.create_cloned_pulse()
        new_pulse.set_center_wavelength_nm(new_wavelength_nm)
        new_AW = interpolator(new_pulse.W_mks)
        new_pulse.set_AW(new_AW)
        return new_pulse"""))
ref('pb26',(PB,"""        AW_new = self.AW
        AW_new[self.wl_nm < lower_wl_nm] = 0.0
        AW_new[self.wl_nm > upper_wl_nm] = 0.0
        self.set_AW(AW_new)        ""","""        wl = self.wl_nm
        outside = (wl < lower_wl_nm) | (wl > upper_wl_nm)
        self.set_AW(np.where(outside, 0.0, self.AW))"""))
ref('pb27',(PB,"""        AW_new = self.AW
        AW_new[self.wl_nm < lower_wl_nm] = 0.0
        AW_new[self.wl_nm > upper_wl_nm] = 0.0
        self.set_AW(AW_new)        ""","""        wl = self.wl_nm
        AW_new = self.AW
        AW_new[np.logical_or(wl < lower_wl_nm, wl > upper_wl_nm)] = 0
        self.set_AW(AW_new)"""))
ref('pb28',(PB,"""        self.set_NPTS(p.NPTS)
        self.set_time_window_ps(p.time_window_ps)
        self.set_center_wavelength_nm(p.center_wavelength_nm)
        self._frep_MHz = p.frep_MHz
        self.set_AT(p.AT)""","""        self._copy_grid(p.NPTS, p.time_window_ps, p.center_wavelength_nm, p.frep_MHz)
        self.set_AW(p.AW)
    def _copy_grid(self, npts, window, wl, frep):
        self.set_frep_MHz(frep)
        self.set_NPTS(npts)
        self.set_center_wavelength_nm(wl)
        self.set_time_window_ps(window)"""))
ref('pb29',(PB,"""        d = {"NPTS" : self.NPTS,
             "time_window_ps" : self.time_window_ps,
             "center_wavelength_nm" : self.center_wavelength_nm,
             "frep_MHz" : self.frep_MHz,
             "AT_re" : self.AT.real.tolist(),
             "AT_im" : self.AT.imag.tolist()}
        return d""","""        d = {}
        for name in ("NPTS", "time_window_ps", "center_wavelength_nm", "frep_MHz"):
            d[name] = getattr(self, name)
        AT = self.AT
        d["AT_re"] = np.real(AT).tolist()
        d["AT_im"] = np.imag(AT).tolist()
        return d"""))
ref('pb30',(PB,"""        self.set_AT(np.array(d["AT_re"]) + 1j*np.array(d["AT_im"]) )""","""        AT = np.zeros(len(d["AT_re"]), dtype=np.complex128)
        AT.real = d["AT_re"]
        AT.imag = d["AT_im"]
        self.set_AT(AT)"""))
ref('pb31',(PB,"""        idx1 = center_idx - (NPTS >> 1)
        idx2 = center_idx + (NPTS >> 1)
        p.set_AW(self.AW[idx1:idx2])
        return p""","""        half = NPTS // 2
        start = center_idx - half
        p.set_AW(self.AW[start:start + 2 * half])
        return p"""))
ref('pb32',(PB,"""        avg = np.sum(abs(self.AW)**2 * self.W_mks)
        weights = np.sum(abs(self.AW)**2)
        result = avg / (weights * 2.0 * np.pi)
        return result""","""        spectrum = np.abs(self.AW)**2
        return np.sum(spectrum * self.F_mks) / np.sum(spectrum)"""))
ref('pb33',(PB,"""        return np.correlate(abs(self.AT)**2, abs(self.AT)**2, mode='same')  ""","""        intensity = np.abs(self.AT)**2
        return np.correlate(intensity, intensity, 'same')"""))
ref('pb34',(PB,"""        phase_data = np.unwrap(np.angle(self.AW))
        if flip_phase:
            phase_data = -1 * phase_data
        inten_data = np.abs(self.AW)
        wavel_data = self.wl_nm
        
        # Write pulse data file
        np.savetxt(self.fileloc, np.vstack((wavel_data, inten_data, phase_data)).T) ""","""        spectrum = self.AW
        sign = -1 if flip_phase else 1
        phase_data = sign * np.unwrap(np.angle(spectrum))
        table = np.column_stack((self.wl_nm, np.abs(spectrum), phase_data))
        np.savetxt(fileloc, table)"""))
ref('pb35',(PB,"""        size_of_bins = self.dF_mks                          # Bin width in [Hz]
        power_per_bin = np.abs(self.AW)**2 / size_of_bins   # [J*Hz] / [Hz] = [J]
            
        h = constants.Planck # use scipy's constants package
        
        #photon_energy = h * self.W_THz/(2*np.pi) * 1e12
        photon_energy = h * self.F_mks # h nu [J]
        photons_per_bin = power_per_bin/photon_energy # photons / second
        photons_per_bin[photons_per_bin<0] = 0 # must be positive.""","""        AW = self.AW
        size_of_bins = self.dF_mks                          # Bin width in [Hz]
        photon_energy = constants.h * self.F_mks
        photons_per_bin = np.abs(AW)**2 / (size_of_bins * photon_energy)
        photons_per_bin = np.maximum(photons_per_bin, 0)"""))
ref('pb36',(PB,"""        if noise_type == 'sqrt_N_freq': # this adds Gausian noise with a sigma=sqrt(photons_per_bin)
                                                                      # [J]         # [Hz]
            noise = random_intensity * np.sqrt(photons_per_bin) * photon_energy * size_of_bins * np.exp(1j*random_phase)
        
        elif noise_type == 'one_photon_freq': # this one photon per bin in the frequecy domain
            noise = random_intensity * photon_energy * size_of_bins * np.exp(1j*random_phase)
        else:
            raise ValueError('noise_type not recognized.')
        
        self.set_AW(self.AW + noise)""","""        one_photon = random_intensity * photon_energy * size_of_bins * np.exp(1j*random_phase)
        if noise_type == 'one_photon_freq':
            self.set_AW(self.AW + one_photon)
            return
        if noise_type != 'sqrt_N_freq':
            raise ValueError('noise_type not recognized.')
        self.set_AW(self.AW + np.sqrt(photons_per_bin) * one_photon)"""))
ref('pb37',(PB,"""        size = np.shape(self.AW)[0]
        random_intensity = np.random.normal( size=size)
        random_phase     = np.random.uniform(size=size) * 2 * np.pi""","""        random_intensity = np.random.normal(0.0, 1.0, self.NPTS)
        random_phase     = 2 * np.pi * np.random.uniform(0.0, 1.0, self.NPTS)"""))
ref('pb38',(PB,"""    def calc_epp(self):""","""    def _time_intensity(self):
        return abs(self.AT)**2
    def calc_epp(self):"""),(PB,"""        return self.dT_mks * np.trapz(abs(self.AT)**2)""","""        return self.dT_mks * np.trapz(self._time_intensity())"""),
 (PB,"""        return np.correlate(abs(self.AT)**2, abs(self.AT)**2, mode='same')  ""","""        return np.correlate(self._time_intensity(), self._time_intensity(), mode='same')"""))
ref('pb39',(PB,"""        if self._AW is not None:
            return IFFT_t( self._AW.copy() )
        else:
            raise RuntimeError('Grids not yet set up.')    ""","""        return IFFT_t(self._get_AW())"""))
ref('pb40',(PB,"""    def _get_center_wavelength_mks(self):
        return (self._c_nmps / self._centerfrequency )*1.0e-9""","""    def _get_center_wavelength_mks(self):
        return self._c_mks / self._get_center_frequency_mks()"""),
 (PB,"""        return abs(self.W_mks[1]-self.W_mks[0])/(2.0*np.pi)""","""        return 1e12 * self._get_dF_THz()"""))
ref('pb41',(PB,"""        return abs(self.W_THz[1]-self.W_THz[0])/(2.0*np.pi)""","""        F = self.F_THz
        return abs(F[1] - F[0])"""))
ref('pb42',(PB,"""    wl_nm           = property(_get_wavelength_nm)
""","""    @property
    def wl_nm(self):
        return self._get_wavelength_nm()
"""))
# --- DerivedPulses
ref('dp1',(DP,"""        if not power_is_avg:
            # from https://www.rp-photonics.com/sech2_shaped_pulses.html
            self.set_AT( np.sqrt(power)/np.cosh(self.T_ps/T0_ps) )
        else:
            self.set_AT( 1 / np.cosh(self.T_ps/T0_ps) )
            self.set_AT(self.AT * np.sqrt( power / ( frep_MHz*1.0e6 * self.calc_epp()) ))""","""        shape = 1 / np.cosh(self.T_ps/T0_ps)
        if power_is_avg:
            self.set_AT(shape)
            self.set_epp(power / self.frep_mks)
        else:
            self.set_AT(np.sqrt(power) * shape)"""))
ref('dp2',(DP,"""        self.set_AT( np.sqrt(power) * np.exp(-2.77*0.5*self.T_ps**2/(T0_ps**2)) ) # input field (W^0.5) 
        if power_is_avg:            
            self.set_AT(self.AT * np.sqrt( power / ( frep_MHz*1.0e6 * self.calc_epp()) ))""","""        tau = self.T_ps / T0_ps
        envelope = np.exp(-0.5 * 2.77 * tau**2)
        self.set_AT(power**0.5 * envelope)
        if power_is_avg:
            self.set_epp(power / (1.0e6 * frep_MHz))"""))
ref('dp3',(DP,"""        T0_ps = FWHM_ps/3.7909885
        ### Generate pulse
        if not power_is_avg:
            # numpy.sinc is sin(pi*x)/(pi*x), so we divide by pi
            self.set_AT( np.sqrt(power) * np.sinc(self.T_ps/(T0_ps*np.pi)) ) 
        else:
            self.set_AT( np.sinc(self.T_ps/(T0_ps*np.pi)) )
            self.set_AT(self.AT * np.sqrt( power / ( frep_MHz*1.0e6 * self.calc_epp()) ))""","""        T0_ps = FWHM_ps/3.7909885
        envelope = np.sinc(self.T_ps / T0_ps / np.pi)
        if not power_is_avg:
            self.set_AT(envelope * np.sqrt(power))
        else:
            self.set_AT(envelope)
            epp = self.calc_epp()
            self.set_AW(self.AW * np.sqrt(power / (epp * frep_MHz * 1.0e6)))"""))
ref('dp4',(DP,"""            frog_data = np.genfromtxt(self.fileloc)
            wavelengths = frog_data[:,0]# (nm)
            intensity   = frog_data[:,1]# (arb. units)
            phase       = frog_data[:,2]# (radians)

            if flip_phase:
                phase = -1 * phase
                            
            pulse_envelope = interp1d(wavelengths, intensity, kind='linear',
                                      bounds_error=False,fill_value=0)
            phase_envelope = interp1d(wavelengths, phase, kind='linear', 
                                      bounds_error=False,fill_value=0)
                                      
            gridded_intensity   = pulse_envelope(self.wl_nm)
            gridded_phase       = phase_envelope(self.wl_nm)
""","""            wavelengths, intensity, phase = np.genfromtxt(self.fileloc)[:, 0:3].T
            if flip_phase:
                phase = -phase
            def on_grid(values):
                return interp1d(wavelengths, values, kind='linear',
                                bounds_error=False, fill_value=0)(self.wl_nm)
            gridded_intensity   = on_grid(intensity)
            gridded_phase       = on_grid(phase)
"""))
ref('dp5',(DP,"""        self.set_AW( 1e-30 * np.ones(self.NPTS) * np.exp(1j * 2 * np.pi *
                 np.random.rand(self.NPTS)))""","""        phases = 2 * np.pi * np.random.rand(self.NPTS)
        self.set_AW(1e-30 * np.exp(1j * phases))"""))
ref('dp6',(DP,"""            self.set_AT(np.ones(self.NPTS,))
            self.set_AW(self.AW * np.sqrt(avg_power) / sum(abs(self.AW)) )""","""            self.set_AT(np.ones((self.NPTS,)))
            line = self.AW
            self.set_AW(line / np.sum(np.abs(line)) * np.sqrt(avg_power))"""))
ref('dp7',(DP,"""            aws = np.zeros((self.NPTS, ))
            aws[int(self.NPTS/2.0) + int(n_offset)  ] = 1.0 *np.sqrt(avg_power)
            self.set_AW(aws)""","""            line = self.NPTS // 2 + int(n_offset)
            spectrum = np.zeros(self.NPTS, dtype=complex)
            spectrum[line] = np.sqrt(avg_power)
            self.set_AW(spectrum)"""))
ref('dp8',(DP,"""class SechPulse(Pulse):""","""def _check_units(center_wavelength_nm, time_window_ps):
    assert center_wavelength_nm > 1.0
    assert time_window_ps > 1.0
class SechPulse(Pulse):"""),(DP,"""        assert (center_wavelength_nm > 1.0) 
        assert (time_window_ps > 1.0 )        
        self.set_center_wavelength_nm(center_wavelength_nm)
        self.set_time_window_ps(time_window_ps)        
        
        GDD = GDD""","""        _check_units(center_wavelength_nm, time_window_ps)
        self.set_center_wavelength_nm(center_wavelength_nm)
        self.set_time_window_ps(time_window_ps)        
        
        GDD = GDD"""))
# --- grating
ref('tc1',(TC,"""        if np.any((l/self.d  - np.sin(self.g))< -1) or np.any((l/self.d  - np.sin(self.g)) > 1):
            print( "Bad value for argument of arcsin: ",\\
                l/self.d  - np.sin(self.g),'. You are probably asking for diffraction of an impossible color (this wavelength is ',l*1e9,'nm. Coercing to [-1,1].' )
        val = l/self.d  - np.sin(self.g)
        val = np.clip(val, -1, 1)

        alpha = np.arcsin(val )""","""        val = l/self.d  - np.sin(self.g)
        if np.any(np.abs(val) > 1):
            print("Bad value for argument of arcsin: ", val)
        alpha = np.arcsin(np.minimum(np.maximum(val, -1), 1))"""))
ref('tc2',(TC,"""        theta = self.calc_theta(wavelength_nm, display_angle = verbose)
        gamma = self.g
        b = G / np.cos(gamma - theta)
        
        return (-4.0 * np.pi**2 * c * b)/ (w**3 * self.d**2 *
                (1.0 - (2.0*np.pi*c/(w*self.d) - np.sin(gamma))**2 ))""","""        b = self._slant(wavelength_nm, G, verbose)
        s = l / self.d - np.sin(self.g)
        return -(4.0 * np.pi**2 * c * b) / (w**3 * self.d**2) / (1.0 - s**2)
    def _slant(self, wavelength_nm, separation, verbose):
        theta = self.calc_theta(wavelength_nm, display_angle=verbose)
        return separation / np.cos(self.g - theta)"""))
ref('tc3',(TC,"""        b = G / np.cos(gamma - theta)
        p = b*(1.+np.cos(theta))
        return p/c""","""        return (G / c) * (1.0 + np.cos(theta)) / np.cos(gamma - theta)"""))
ref('tc4',(TC,"""        fn = lambda x:self.calc_compressor_gdd(l_of_w(x), grating_separation_meters)        
        return misc.derivative(fn, 
                                      w_of_l(wavelength_nm),""","""        def fn(omega):
            return self.calc_compressor_gdd(l_of_w(omega), grating_separation_meters)
        omega0 = w_of_l(wavelength_nm)
        return misc.derivative(fn, 
                                      omega0,"""))
ref('tc5',(TC,"""        integrand = lambda x: 2.0 * self.calc_dphi_domega(x, grating_separation_meters)
        calc_phase = lambda x:integrate.quad(integrand, w0, x, 
                                             epsabs = 1.0e-8,epsrel = 1.0e-8,)[0]
        vec_calc_phase = np.vectorize(calc_phase)
        phase = vec_calc_phase(pulse.W_mks)""","""        integrand = lambda x: self.calc_dphi_domega(x, grating_separation_meters)
        W = pulse.W_mks
        phase = np.array([2.0 * integrate.quad(integrand, w0, w,
                                               epsabs=1.0e-8, epsrel=1.0e-8)[0] for w in W])"""))
ref('tc6',(TC,"""        self.d = 1.0e-3 / lines_per_mm
        self.g = incident_angle_degrees * 2.0*np.pi / 360.0""","""        self.d = 1.0 / (1000.0 * lines_per_mm)
        self.g = np.deg2rad(incident_angle_degrees)"""))
# --- beam
ref('bm1',(BEAM,"""        b = self.calc_confocal(n_s)
        return self.waist * np.sqrt(1. + ( 2.0* z / b)**2 )""","""        ratio = z / self.calculate_zR(n_s)
        return self._w0 * np.sqrt(1. + ratio**2)"""))
ref('bm2',(BEAM,"""        z_r = self.calculate_zR(n_s)
        return z * (1 + (z_r/z)**2)""","""        z_r = self.calculate_zR(n_s)
        return z + z_r**2 / z"""))
ref('bm3',(BEAM,"""        z_r      = self.calculate_zR(n_s)
        psi_gouy = np.arctan2(z, z_r )
        return np.exp(1j*psi_gouy)""","""        psi = np.arctan(z / self.calculate_zR(n_s))
        return np.cos(psi) + 1j * np.sin(psi)"""))
ref('bm4',(BEAM,"""        if waist is None:
            waist = self.calculate_waist(z, n_s)
        return 1.0 / np.sqrt( np.pi * waist**2 * n_s * \\
                        constants.epsilon_0 * constants.speed_of_light)   ""","""        w = self.calculate_waist(z, n_s) if waist is None else waist
        area = np.pi * w**2
        return (area * n_s * constants.epsilon_0 * constants.c)**-0.5"""))
ref('bm5',(BEAM,"""        if reverse_order:
            zr2 = zr2[::-1]
            k2 = k2[::-1]
""","""        if reverse_order:
            zr2, k2 = np.flip(zr2), np.flip(k2)
"""),(BEAM,"""        return  (4*k1*k2*zr1*zr2)/(k2**2*(z**2 + zr1**2) - 2*k1*k2*(z**2 - zr1*zr2) + k1**2*(z**2 + zr2**2))""","""        numer = 4*k1*k2*zr1*zr2
        denom = z**2 * (k1 - k2)**2 + (k2*zr1 + k1*zr2)**2
        return numer / denom"""))
ref('bm6',(BEAM,"""        n1 = self.get_n_in_crystal(this_pulse, crystal_instance)
        zr = (np.pi) * w0_center**2 * (n1[len(n1)>>1]/self._lambda0[len(self._lambda0)>>1])
        w0 = np.sqrt( 2*zr*self._lambda0/(2.0*np.pi*n1))
        self.set_w0(w0)""","""        n1 = self.get_n_in_crystal(this_pulse, crystal_instance)
        mid = len(n1) // 2
        ratio = (n1[mid] / n1) * (self._lambda0 / self._lambda0[mid])
        self.set_w0(w0_center * np.sqrt(ratio))"""))
ref('bm7',(BEAM,"""        zr = othr_beam.calculate_zR(n2)  
        w0 = np.sqrt( 2.0*zr*self._lambda0/(2.0*np.pi*n1))
        self.set_w0(w0)""","""        self._set_waist_from_zR(othr_beam.calculate_zR(n2), n1)

    def _set_waist_from_zR(self, zr, n):
        self._w0 = np.sqrt(zr * self._lambda0 / (np.pi * n))"""))
ref('bm8',(BEAM,"""        obj_fn = lambda zr1: -1.0*np.sum((4*k1*k2*zr1*abs(zr2) *\\
            np.arctan( ((k1 - k2)*L)/(k2*zr1 + k1*abs(zr2)))/\\
            ((k1 - k2)*(k2*zr1 + k1*abs(zr2)))))
""","""        abs_zr2 = np.abs(zr2)
        dk = k1 - k2
        def obj_fn(zr1):
            s = k2*zr1 + k1*abs_zr2
            overlap = 4*k1*k2*zr1*abs_zr2 * np.arctan(dk*L/s) / (dk*s)
            return -np.sum(overlap)
"""))
ref('hv1',(HV,"""        return 1.0 / np.sqrt( self._Aeff * n_s * \\
                        constants.epsilon_0 * constants.speed_of_light)""","""        scale = self.Aeff * constants.epsilon_0 * constants.c
        return 1.0 / (np.sqrt(scale) * np.sqrt(n_s))"""))
ref('hv2',(HV,"""        n_s = self.get_n_in_crystal(pulse_instance, crystal_instance)
        return self._rtP_to_a(n_s, z)""","""        return self.rtP_to_a(self.get_n_in_crystal(pulse_instance, crystal_instance), z)"""))
# --- crystals
ref('xc1',(XC,"""        if 'length' in params.keys():
            self._length = params['length']
        else:
            self._length = 1.0
        if 'enable_caching' in params.keys():
            self._enable_caching = params['enable_caching']
        else:
            self._enable_caching = False""","""        self._length = params.get('length', 1.0)
        self._enable_caching = params.get('enable_caching', False)"""))
ref('xc2',(XC,"""        if axis is None:
            ks = 2.0 * np.pi * self.n(pulse_instance.wl_nm) / pulse_instance.wl_mks
        else:
            ks = 2.0 * np.pi * self.n(pulse_instance.wl_nm, axis) / pulse_instance.wl_mks
        return ks            ""","""        args = () if axis is None else (axis,)
        wl_nm = pulse_instance.wl_nm
        return self.n(wl_nm, *args) * 2.0 * np.pi / (wl_nm * 1e-9)"""))
ref('xc3',(XC,"""        if self._enable_caching:
            if pulse_instance.cache_hash + str(axis) in self._cached_ns.keys():
                return np.copy(self._cached_ns[pulse_instance.cache_hash + str(axis)])
            else:
                if axis is None:
                    ns = self.n(pulse_instance.wl_nm)
                else:
                    ns = self.n(pulse_instance.wl_nm, axis)
                self._cached_ns[pulse_instance.cache_hash + str(axis)]= np.copy(ns)
        else:
            if axis is None:
                ns = self.n(pulse_instance.wl_nm)
            else:
                ns = self.n(pulse_instance.wl_nm, axis)
        return ns""","""        key = pulse_instance.cache_hash + str(axis)
        if self._enable_caching and key in self._cached_ns:
            return self._cached_ns[key].copy()
        if axis is None:
            ns = self.n(pulse_instance.wl_nm)
        else:
            ns = self.n(pulse_instance.wl_nm, axis)
        if self._enable_caching:
            self._cached_ns[key] = ns.copy()
        return ns"""))
ref('xc4',(XC,"""        vg_inverse = (1.0 / self._c_nm_ps) * (fn(wavelengths_nm) - wavelengths_nm * dn_dl)
        return 1.0 / vg_inverse""","""        group_index = fn(wavelengths_nm) - dn_dl * wavelengths_nm
        return self._c_nm_ps / group_index"""))
ref('xc5',(XC,"""        if crystal_length_mks is None:
            crystal_length = self.length_nm
        else:
            crystal_length = 1.0e9 * crystal_length_mks
        vg1 = self.calculate_group_velocity_nm_ps(wl1_nm, axis)
        vg2 = self.calculate_group_velocity_nm_ps(wl2_nm, axis)
        delta_t = crystal_length/vg1 - crystal_length/vg2
        return delta_t        ""","""        if crystal_length_mks is None:
            crystal_length_mks = self.length_mks
        inverse = [1.0 / self.calculate_group_velocity_nm_ps(wl, axis) for wl in (wl1_nm, wl2_nm)]
        return 1.0e9 * crystal_length_mks * (inverse[0] - inverse[1])"""))
ref('xc6',(XC,"""        d2n_dl2 = misc.derivative(fn, wavelengths_nm, dx = 0.1, n = 2, order = 11)
        D1      = -(wavelengths_nm / self._c_nm_ps) * d2n_dl2 # units are ps/nm/nm
        D       = D1 * 1.0e12
        return D    ""","""        curvature = misc.derivative(fn, wavelengths_nm, dx=0.1, n=2, order=11)
        return -1.0e12 * wavelengths_nm * curvature / self._c_nm_ps"""))
ref('xc7',(XC,"""        deltaOmega_deltaL = np.minimum(np.abs( 0.886 * np.pi / (1.0/vg_s - 1.0/vg_p) ),
                                   np.abs( 0.886 * np.pi / (1.0/vg_i - 1.0/vg_p) ) )
        
        
        deltak_deltaL = deltaOmega_deltaL * 1.0/speed_of_light
        return deltak_deltaL""","""        def width(vg):
            return np.abs(0.886 * np.pi / (1.0/vg - 1.0/vg_p)) / speed_of_light
        return np.minimum(width(vg_s), width(vg_i))"""))
ref('xc8',(XC,"""        self.pp   = lambda x: start + (stop-start) * x /self.length_mks""","""        def local_period(x):
            fraction = x / self.length_mks
            return start * (1.0 - fraction) + stop * fraction
        self.pp = local_period"""))
ref('pp1',(PPLN,"""        wl_um = wl_nm * 1.0e-3
        f = (self.T - 24.5)*(self.T+570.82)
        return np.sqrt(self.a1 + self.b1*f +\\
                (self.a2 + self.b2*f)/(wl_um**2-(self.a3+self.b3*f)**2) +\\
                (self.a4 + self.b4*f)/(wl_um**2 - self.a5**2) -\\
                self.a6 * wl_um**2)        ""","""        f = (self.T - 24.5)*(self.T+570.82)
        l2 = (1.0e-3 * wl_nm)**2
        n2 = self.a1 + self.b1*f
        n2 = n2 + (self.a2 + self.b2*f) / (l2 - (self.a3 + self.b3*f)**2)
        n2 = n2 + (self.a4 + self.b4*f) / (l2 - self.a5**2)
        n2 = n2 - self.a6 * l2
        return np.sqrt(n2)"""))
ref('pp2',(PPLN,"""        if p.__class__ is tuple:
            self.pp = lambda x: p[0]
        else:
            self.pp = lambda x: p(x)""","""        if isinstance(p, tuple):
            period = p[0]
            self.pp = lambda x: period
        else:
            self.pp = p"""))
ref('pp3',(PPLN,"""        kp = self.n(pump_wl_nm)*2*np.pi/pump_wl_nm
        ks = self.n(sgnl_wl_nm)*2*np.pi/sgnl_wl_nm
        ki = self.n(idlr_wl_nm)*2*np.pi/idlr_wl_nm
        if self.length_mks is not None:
            delta_k_set_pt = delta_k_L / self.length_nm
        else:
            delta_k_set_pt = 0
        deltak = kp-ks-ki - delta_k_set_pt
        period_meter = np.pi/deltak*1.0e-9
        if not silent:
            print ('period is ',2.0*period_meter*1.0e6,' um')
        if RET_wl_nm:
            return (period_meter*2, new_wl_nm)
        else:
            return period_meter*2""","""        def k(wl):
            return 2*np.pi*self.n(wl)/wl
        deltak = k(pump_wl_nm) - k(sgnl_wl_nm) - k(idlr_wl_nm)
        if self.length_mks is not None:
            deltak = deltak - delta_k_L / self.length_nm
        period = 2.0e-9*np.pi/deltak
        if not silent:
            print ('period is ',period*1.0e6,' um')
        if not RET_wl_nm:
            return period
        return period, new_wl_nm"""))
ref('pp4',(PPLN,"""        self.n = self.sellmeier_calculators[data_source].n
        self.set_xtalT = self.sellmeier_calculators[data_source].set_T_degC""","""        chosen = self.sellmeier_calculators[data_source]
        self.n, self.set_xtalT = chosen.n, chosen.set_T_degC"""))
ref('ag1',(AGS,"""        if axis == 'mix':
            return 1.0 / np.sqrt(np.sin(self.theta)**2/ne**2 + 
                   np.cos(self.theta)**2/no**2)
        elif axis == 'o':
            return no
        elif axis == 'e':
            return ne
""","""        if axis == 'o':
            return no
        if axis == 'e':
            return ne
        if axis == 'mix':
            s2 = np.sin(self.theta)**2
            return no * ne / np.sqrt(s2 * no**2 + (1 - s2) * ne**2)
"""))
ref('ag2',(AGS,"""        x = ( -b + np.sqrt(b**2-4*a*c) )/ (2.0  * a)
        if x < 0:
            x = ( -b - np.sqrt(b**2-4*a*c) )/ (2.0  * a)
        if np.isnan(np.arccos(x)) :
            raise AttributeError('No phase matching condition.')
        theta = np.arccos(x)""","""        root = np.sqrt(b**2-4*a*c)
        x = (root - b) / (2.0 * a)
        if x < 0:
            x = -(b + root) / (2.0 * a)
        theta = np.arccos(x)
        if np.isnan(theta):
            raise AttributeError('No phase matching condition.')"""))
