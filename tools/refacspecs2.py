# --- SSFM
ref('ss1',(SS,"""        for i in range(pulse.NPTS):
            omega = self.omegas[i]
            H_R = C*TAU1*TAU2**2 / \\
                  (TAU1**2 + TAU2**2 - 2j*omega*TAU1**2*TAU2 - TAU1**2*TAU2**2*omega**2)
            self.R0[i] = (1.0-F_R) + (F_R * H_R)
""","""        omega = self.omegas
        H_R = C*TAU1*TAU2**2 / \\
              (TAU1**2 + TAU2**2 - 2j*omega*TAU1**2*TAU2 - TAU1**2*TAU2**2*omega**2)
        self.R0[:] = (1.0-F_R) + (F_R * H_R)
"""))
ref('ss2',(SS,"""        for i in range(pulse.NPTS):
            omega = self.omegas[i]
            H_R""","""        for i, omega in enumerate(self.omegas):
            H_R"""))
ref('ss3',(SS,"""        if self.USE_SIMPLE_RAMAN:
            RT     = (tau1**2 + tau2**2) /( tau1 * tau2**2 )*\\
                        np.exp(-T/tau2)*np.sin(T/tau1)
            RT[0:pulse.NPTS>>1]=0
            RT[:]     = RT / np.trapz(RT, T)
            #H_R    = pulse.dT*pulse.n*self.FFT_t(fftshift(RT))
            self.R[:]    = ((1.0-F_R) + pulse.time_window_ps*self.FFT_t_shift(F_R * RT))

        else:""","""        if self.USE_SIMPLE_RAMAN:
            RT     = (tau1**2 + tau2**2) /( tau1 * tau2**2 )*\\
                        np.exp(-T/tau2)*np.sin(T/tau1)
        else:"""),(SS,"""            RT = (fa + fc)*ha + fb*hb
            RT[0:pulse.NPTS>>1]=0
            RT[:] = RT / np.trapz(RT, T)
            self.R[:]    = ((1.0-F_R) + pulse.time_window_ps*self.FFT_t_shift(F_R * RT))               
""","""            RT = (fa + fc)*ha + fb*hb
        RT[:pulse.NPTS // 2] = 0
        RT = RT / np.trapz(RT, T)
        self.R[:] = (1.0 - F_R) + F_R * pulse.time_window_ps * self.FFT_t_shift(RT)
"""))
ref('ss4',(SS,"""            RT = (fa + fc)*ha + fb*hb
            RT[0:pulse.NPTS>>1]=0
            RT[:] = RT / np.trapz(RT, T)""","""            RT = np.where(np.arange(pulse.NPTS) < (pulse.NPTS >> 1), 0.0, (fa + fc)*ha + fb*hb)
            RT = RT / np.trapz(RT, x=T)"""))
ref('ss5',(SS,"""        if (2.0*dz > dist):
            dz = dist/2.0
""","""        dz = min(dz, dist/2.0)
"""))
ref('ss6',(SS,"""            if self.eta==3:
                self.A[:] = (4.0/3.0) * self.Af -(1.0/3.0) * self.Ac
            elif self.eta==5:
                self.A[:] = (16.0/15.0) * self.Af -(1.0/15.0) * self.Ac
            else:
                p = 2.0**(self.eta-1.0)
                self.A[:] = (p/(p-1.0)) * self.Af -(1.0/(p-1.0)) * self.Ac
""","""            p = 2.0**(self.eta-1.0)
            self.A[:] = (p * self.Af - self.Ac) / (p - 1.0)
"""))
ref('ss7',(SS,"""            if delta > 2.0*self.local_error:
                # Discard the solution, decrease step
                new_dz = dz/2.0
                if new_dz >= self.dz_min:
                    dz = new_dz
                    # discard current step
                    continue
                else:
                    # accept step after all
                    pass
            elif (delta >= self.local_error) and (delta<=2.0*self.local_error): 
                # Keep solution, decrease step
                new_dz = dz / factor
                if new_dz >= self.dz_min:
                    dz = new_dz
                else:
                    pass
#                    printf("[%d] limited a step decrease, h = %g, delta = %g\\n",self.iter,dz,delta)
            elif (delta >= (0.5*self.local_error)) and (delta<=self.local_error):
                # keep the step
                new_dz = new_dz
            else:     # delta < local_error/2
                # Step too small
                new_dz = dz * factor
                dz = new_dz
""","""            if delta > 2.0*self.local_error:
                if dz/2.0 >= self.dz_min:
                    dz /= 2.0
                    continue
            elif delta >= self.local_error:
                if dz/factor >= self.dz_min:
                    dz = dz/factor
            elif delta < 0.5*self.local_error:
                dz *= factor
"""))
ref('ss8',(SS,"""            self.Ac[:] = self.A
            self.Af[:] = self.A
            
            self.Ac[:] = self.Advance(self.Ac,2.0*dz,direction)
            self.Af[:] = self.Advance(self.Af,dz,direction)
            self.Af[:] = self.Advance(self.Af,dz,direction)
""","""            self._trial_steps(dz, direction)
"""),(SS,"""    def Advance(self,A,dz,direction):""","""    def _trial_steps(self, dz, direction):
        for target, step, count in ((self.Ac, 2.0*dz, 1), (self.Af, dz, 2)):
            target[:] = self.A
            for _ in range(count):
                target[:] = self.Advance(target, step, direction)

    def Advance(self,A,dz,direction):"""))
ref('ss9',(SS,"""            self.Aw[:]      = self.FFT_t(A)
            self.R_A2[:]    = self.IFFT_t(self.R*self.A2w)
            self.dA[:]      = self.Deriv(self.Aw)
            self.dA2[:]     = self.Deriv(self.A2w)
            self.dR_A2[:]   = self.IFFT_t(self.R*self.FFT_t(self.dA2))
        
            return""","""            self.R_A2[:]    = self.IFFT_t(self.R*self.A2w)
            self.dR_A2[:]   = self.Deriv(self.R*self.A2w)
            self.dA[:]      = self.Deriv(self.FFT_t(A))
            return"""))
ref('ss10',(SS,"""            return 1j*self.gamma*self.R_A2 - (self.gamma/self.w0)* \\
                   (self.dR_A2 + np.where(np.abs(A)>1.0E-15,self.dA*self.R_A2/(1.0e-20+A),0.0))
""","""            shock = np.where(np.abs(A)>1.0E-15, self.R_A2*self.dA/(A+1.0e-20), 0.0)
            shock = shock + self.dR_A2
            return self.gamma * (1j*self.R_A2 - shock/self.w0)
"""))
ref('ss11',(SS,"""        self.A2[:]  = np.abs(A)**2   
""","""        self.A2[:]  = A * A.conj()
"""))
ref('ss12',(SS,"""        self.k2[:] = h * direction * self.NonlinearOperator(self.A_I + self.k1/2.0)*\\
                        (self.A_I + self.k1/2.0)
        self.k3[:] = h * direction * self.NonlinearOperator(self.A_I + self.k2/2.0)*\\
                        (self.A_I + self.k2/2.0)        
""","""        def slope(field):
            return direction * h * field * self.NonlinearOperator(field)
        self.k2[:] = slope(self.A_I + 0.5*self.k1)
        self.k3[:] = slope(self.A_I + 0.5*self.k2)
"""))
ref('ss13',(SS,"""        return self.IFFT_t_2(self.exp_D * self.FFT_t_2(self.A_I + self.k1/6.0 +\\
                self.k2/3.0 + self.k3/3.0)) + self.k4/6.0
""","""        combined = self.A_I + (self.k1 + 2.0*(self.k2 + self.k3))/6.0
        return self.IFFT_t_2(self.exp_D * self.FFT_t_2(combined)) + self.k4/6.0
"""))
ref('ss14',(SS,"""        self.exp_D[:] = np.exp(direction*h*0.5*(1j*self.betas-self.alpha/2.0))""","""        half = 0.5*h*direction
        self.exp_D[:] = np.exp(1j*half*self.betas) * np.exp(-half*self.alpha/2.0)"""))
ref('ss15',(SS,"""        if h!=self.last_h or direction!=self.last_dir or self.last_h is None:
            self.Calculate_expD(h,direction)
            self.last_h = h
            self.last_dir = direction           
""","""        fresh = self.last_h is not None and h == self.last_h and direction == self.last_dir
        if not fresh:
            self.last_h, self.last_dir = h, direction
            self.Calculate_expD(h,direction)
"""))
ref('ss17',(SS,"""        z_positions = np.linspace(0, fiber.length, n_steps + 1)
        if n_steps == 1:
            delta_z = fiber.length
        else:
            delta_z = z_positions[1] - z_positions[0]
""","""        delta_z = fiber.length / n_steps
        z_positions = np.linspace(0, fiber.length, n_steps + 1)
"""))
ref('ss18',(SS,"""        pulse_out = Pulse()        
        pulse_out.clone_pulse(pulse_in)
""","""        pulse_out = pulse_in.create_cloned_pulse()
"""))
ref('ss19',(SS,"""        for i in range(n_steps):                        
            print""","""        z = 0.0
        for i in range(n_steps):                        
            z = i * delta_z
            print"""),(SS,"""                self.load_fiber_parameters(pulse_in, fiber, output_power, z=i*delta_z) 
""","""                self.load_fiber_parameters(pulse_in, fiber, output_power, z=z) 
"""))
ref('ss20',(SS,"""        for n1, (y, E1, AT, pulsein, pulseout) in enumerate(results):
            for n2, (y, E2, AT, pulsein, pulseout) in enumerate(results):
                if n1 == n2: continue # don't compare the same trial

                g12 = np.conj(E1)*E2/np.sqrt(np.abs(E1)**2 * np.abs(E2)**2)
                if 'g12_stack' not in locals():
                    g12_stack = g12
                else:
                    g12_stack = np.dstack((g12, g12_stack))


        # print g12_stack.shape, g12_stack.transpose().shape
        g12W = np.abs(np.mean(g12_stack, axis=2))  
""","""        pairs = []
        for n1 in range(len(results)):
            for n2 in range(len(results)):
                if n1 != n2:
                    E1, E2 = results[n1][1], results[n2][1]
                    pairs.append(np.conj(E1)*E2/(np.abs(E1)*np.abs(E2)))
        g12W = np.abs(np.mean(np.dstack(pairs), axis=2))
"""))
ref('ss21',(SS,"""        if scalefactor_guess is not None:
                scalefactor = scalefactor_guess
        else:
                scalefactor = 1
""","""        scalefactor = 1 if scalefactor_guess is None else scalefactor_guess
"""))
ref('ss22',(SS,"""            if abs(modeled_avg_power-power_goal) < \\
                        abs(modeled_avg_power_prev-power_goal):
                output_scale = scalefactor_revised
            else:
                output_scale = scalefactor
            # Update scalefactor and go to top of loop
            scalefactor = scalefactor_revised
            scalefactor_revised = (power_goal - yint)/slope                            
""","""            closer = abs(power_goal - modeled_avg_power) < abs(power_goal - modeled_avg_power_prev)
            output_scale = scalefactor_revised if closer else scalefactor
            scalefactor, scalefactor_revised = scalefactor_revised, (power_goal - yint)/slope
"""))
ref('ss23',(SS,"""        denom = np.linalg.norm(self.Af)
        if denom != 0.0:
            return np.linalg.norm(self.Af-self.Ac)/np.linalg.norm(self.Af)
        else:
            return np.linalg.norm(self.Af-self.Ac)
""","""        error = np.linalg.norm(self.Ac - self.Af)
        size = np.linalg.norm(self.Af)
        return error / size if size != 0.0 else error
"""))
ref('ss24',(SS,"""        denom = np.linalg.norm(self.Af)
        if denom != 0.0:
            return np.linalg.norm(self.Af-self.Ac)/np.linalg.norm(self.Af)
        else:
            return np.linalg.norm(self.Af-self.Ac)
""","""        error = np.sqrt(np.sum(np.abs(self.Af - self.Ac)**2))
        size = np.sqrt(np.sum(np.abs(self.Af)**2))
        if size == 0.0:
            return error
        return error / size
"""))
ref('ss25',(SS,"""        if PYFFTW_AVAILABLE:
            self.fft_input[:] = fftshift(A)
            return ifftshift(self.fft())
        else:
            return ifftshift(scipy.fftpack.ifft(fftshift(A)))
""","""        if not PYFFTW_AVAILABLE:
            return ifftshift(np.fft.ifft(fftshift(A)))
        self.fft_input[:] = fftshift(A)
        return ifftshift(self.fft())
"""))
ref('ss26',(SS,"""            self.A_I[:] = 0""","""            self.A_I[:] = 0""") if False else (SS,"""        self.A_I[:] = 0.0        
        self.A2[:]  = 0.0
        self.Af[:]  = 0.0
        self.Ac[:]  = 0.0
        self.A[:]   = 0.0
        self.R[:]   = 0.0
        self.R0[:]  = 0.0
""","""        for work in (self.A_I, self.A2, self.Af, self.Ac, self.A, self.R, self.R0):
            work[:] = 0.0
"""))
ref('ss27',(SS,"""        self.k1     = np.ndarray((self.n,), dtype='complex128')      
        self.k2     = np.ndarray((self.n,), dtype='complex128')      
        self.k3     = np.ndarray((self.n,), dtype='complex128')      
        self.k4     = np.ndarray((self.n,), dtype='complex128')      
""","""        for name in ('k1', 'k2', 'k3', 'k4'):
            setattr(self, name, np.empty(self.n, dtype=np.complex128))
"""))
ref('ss28',(SS,"""        self.betas[:]  =  fiber.get_betas(pulse_in, z=z)
""","""        self.betas[:]  =  np.asarray(fiber.get_betas(pulse_in, z=z))
"""),(SS,"""        self.betas[:]  = self.conditional_fftshift(self.betas)
        # self.alpha""","""        if global_variables.PRE_FFTSHIFT:
            self.betas[:] = fftshift(self.betas)
        # self.alpha"""))
ref('ss29',(SS,"""        if self.method == SSFM.METHOD_SSFM:
            if direction==1:
                A[:] = self.LinearStep(A,dz,direction)
                return np.exp(dz*direction*self.NonlinearOperator(A))*A
            else:
                A[:] = np.exp(dz*direction*self.NonlinearOperator(A))*A
                return self.LinearStep(A,dz,direction)
        elif self.method == SSFM.METHOD_RK4IP:
            return self.RK4IP(A,dz,direction)
""","""        if self.method == SSFM.METHOD_RK4IP:
            return self.RK4IP(A, dz, direction)
        if self.method != SSFM.METHOD_SSFM:
            return None
        if direction != 1:
            A[:] = np.exp(dz*direction*self.NonlinearOperator(A))*A
            return self.LinearStep(A,dz,direction)
        A[:] = self.LinearStep(A,dz,direction)
        return np.exp(dz*direction*self.NonlinearOperator(A))*A
"""))
ref('ss30',(SS,"""            dist -= 2.0*old_dz
            self.iter += 1
""","""            dist = dist - 2.0*old_dz
            self.iter = self.iter + 1
"""),(SS,"""            if (2.0*dz > dist) and (dist>0.0):
                force_last_dz = True
                return_dz = dz
                dz = dist/2.0
""","""            if 0.0 < dist < 2.0*dz:
                return_dz, dz = dz, dist/2.0
                force_last_dz = True
"""))
ref('ss31',(SS,"""            pulse = pulse_in.create_cloned_pulse()
            pulse.add_noise(noise_type=noise_type)

            y, AW, AT, pulse_out = self.propagate(pulse_in=pulse, fiber=fiber, n_steps=n_steps,
                                                  output_power=output_power,
                                                  reload_fiber_each_step=reload_fiber_each_step)

            results.append((y, AW, AT, pulse_in, pulse_out))
""","""            noisy = Pulse()
            noisy.clone_pulse(pulse_in)
            noisy.add_noise(noise_type)
            y, AW, AT, pulse_out = self.propagate(noisy, fiber, n_steps, output_power,
                                                  reload_fiber_each_step)
            results += [(y, AW, AT, pulse_in, pulse_out)]
"""))
# --- fiber
ref('fb1',(FIB,"""            for i in range(len(self.betas)):
                B = B + self.betas[i]/factorial(i+2)*pulse.V_THz**(i+2)
            return B
""","""            V = pulse.V_THz
            for n, beta in enumerate(self.betas, 2):
                B = B + beta / factorial(n) * V**n
            return B
"""))
ref('fb2',(FIB,"""            for i in range(len(betas)):
                betas[i] = betas[i]
                B = B + betas[i] / factorial(i + 2) * (pulse.W_THz-fiber_omega0)**(i + 2)
""","""            dW = pulse.W_THz - fiber_omega0
            B = sum(b / factorial(i + 2) * dW**(i + 2) for i, b in enumerate(betas))
"""))
ref('fb3',(FIB,"""            betas = self.betas
            for i in range(len(betas)):
                betas[i] = betas[i]
                B = B + betas[i] / factorial(i + 2) * (pulse.W_THz-fiber_omega0)**(i + 2)
""","""            B = self._taylor(pulse.W_THz - fiber_omega0, B)
"""),(FIB,"""    def get_gain(self,pulse,output_power = 1):""","""    def _taylor(self, dW, start):
        total = start
        order = 2
        scale = 1.0
        for beta in self.betas:
            scale = scale * order
            total = total + beta / scale * dW**order
            order = order + 1
        return total
    def get_gain(self,pulse,output_power = 1):"""))
ref('fb4',(FIB,"""            center_index = np.argmin(np.abs(pulse.V_THz))
            slope = np.gradient(B)/np.gradient(pulse.W_THz)
            B = B - slope[center_index] * (pulse.V_THz) - B[center_index]
""","""            V = pulse.V_THz
            mid = np.abs(V).argmin()
            slope_at_center = (np.gradient(B)/np.gradient(pulse.W_THz))[mid]
            B = (B - B[mid]) - slope_at_center * V
"""))
ref('fb5',(FIB,"""            supplied_W_THz = 2 * np.pi * 1e-12 * self.c_mks / (self.x*1e-9)
            supplied_betas = self.y * 2 * np.pi / (self.x * 1e-9)
""","""            wl_m = self.x * 1e-9
            k0 = 2 * np.pi / wl_m
            supplied_W_THz = 1e-12 * self.c_mks * k0
            supplied_betas = self.y * k0
"""))
ref('fb6',(FIB,"""        if self.gamma_changes_with_z:
            gamma = self.gamma_function(z)
        else:
            gamma = self.gamma
            
        return gamma
""","""        return self.gamma_function(z) if self.gamma_changes_with_z else self.gamma
"""))
ref('fb7',(FIB,"""        if self.fiberspecs["is_gain"]:
            if self.is_simple_fiber:
                return self.gain
            else:
""","""        if not self.fiberspecs["is_gain"]:
            return np.zeros((pulse.NPTS,))
        if self.is_simple_fiber:
            return self.gain
        if True:
            if True:
"""),(FIB,"""                    return np.ones((pulse.NPTS,)) * self.gain
        else:
            return np.zeros((pulse.NPTS,))
""","""                    return np.full(pulse.NPTS, self.gain)
"""))
ref('fb8',(FIB,"""                    g = lambda k: np.abs(output_power - pulse.frep_mks * pulse.dT_mks*
                                        np.trapz(np.abs(
                                            IFFT_t( pulse.AW *
                                                np.exp(k*gain_spec*self.length/2.0)
                                                )
                                                )**2))

                    scale_factor = minimize(g, 1, method='Powell')
""","""                    def power_error(k):
                        amplified = pulse.AW * np.exp(0.5 * self.length * k * gain_spec)
                        energy = pulse.dT_mks * np.trapz(np.abs(IFFT_t(amplified))**2)
                        return np.abs(output_power - pulse.frep_mks * energy)

                    scale_factor = minimize(power_error, 1, method='Powell')
"""))
ref('fb9',(FIB,"""        out = np.diff(self.get_betas(pulse), 2) / dw**2
        out = np.append(out[0], out)
        out = np.append(out, out[-1])
        return out
""","""        inner = np.diff(self.get_betas(pulse), 2) / dw**2
        return np.concatenate(([inner[0]], inner, [inner[-1]]))
"""))
ref('fb10',(FIB,"""        out = np.diff(self.get_betas(pulse), 2) / dw**2
        out = np.append(out[0], out)
        out = np.append(out, out[-1])
        return out
""","""        B = self.get_betas(pulse)
        inner = (B[2:] - 2*B[1:-1] + B[:-2]) / dw**2
        out = np.append(inner[0], inner)
        return np.append(out, inner[-1])
"""))
ref('fb11',(FIB,"""        return -2 * np.pi * self.c / pulse.wl_nm**2 * self.Beta2(pulse) * 1000""","""        wl = pulse.wl_nm
        beta2 = self.Beta2(pulse)
        return -2.0e3 * np.pi * self.c * beta2 / (wl * wl)"""))
ref('fb12',(FIB,"""        self.fiberspecs= {}
        self.fiberspecs['dispersion_format'] = 'GVD'
        self.fibertype = label
        if gain == 0:
            self.fiberspecs["is_gain"] = False
        else:
            self.fiberspecs["is_gain"] = True
        self.gain = gain
        # The following line signals get_gain to use a flat gain spectrum
        self.fiberspecs['gain_x_data' ] = None

        self.center_wavelength = center_wl_nm
        self.betas = np.copy(np.array(betas))
        self.gamma = gamma_W_m
        # If in km^-1 units, scale to m^-1
        if gvd_units == 'ps^n/km':
            self.betas = self.betas * 1.0e-3""","""        self.fibertype = label
        self.fiberspecs = dict(dispersion_format='GVD', is_gain=(gain != 0), gain_x_data=None)
        self.gain = gain
        self.gamma = gamma_W_m
        self.center_wavelength = center_wl_nm
        scale = 1.0e-3 if gvd_units == 'ps^n/km' else 1.0
        self.betas = np.array(betas) * scale"""))
ref('fb13',(FIB,"""        if self.dispersion_changes_with_z:
            if self.fiberspecs["dispersion_format"] == "D" or self.fiberspecs["dispersion_format"] == "n":
                self.x, self.y = self.dispersion_function(z)
            if self.fiberspecs["dispersion_format"] == "GVD":
                self.betas     = np.array(self.dispersion_function(z))
""","""        fmt = self.fiberspecs["dispersion_format"]
        if self.dispersion_changes_with_z:
            here = self.dispersion_function(z)
            if fmt in ("D", "n"):
                self.x, self.y = here
            elif fmt == "GVD":
                self.betas = np.array(here)
"""))
ref('fb14',(FIB,"""        if fiberName == None:
            self.fibertype = os.path.basename(filename)
        else:
            self.fibertype = fiberName
""","""        self.fibertype = os.path.basename(filename) if fiberName is None else fiberName
"""),(FIB,"""        if gain == 0:
            self.fiberspecs["is_gain"] = False
        else:
            self.fiberspecs["is_gain"] = True

        self.fiberspecs['gain_x_data' ] = None
        
        self.x, self.y = np.loadtxt(filename, delimiter=delimiter, skiprows=skiprows, unpack=True)
""","""        self.fiberspecs.update({"is_gain": gain != 0, "gain_x_data": None})
        table = np.loadtxt(filename, delimiter=delimiter, skiprows=skiprows)
        self.x, self.y = table[:, 0], table[:, 1]
"""))
ref('fb15',(FIB,"""        if self.fiberspecs["dispersion_format"] == "D":
            self.dispersion_x_units = self.fiberspecs["dispersion_x_units"]
            self.dispersion_y_units = self.fiberspecs["dispersion_y_units"]
            self.x = self.fiberspecs["dispersion_x_data"]
            self.y = self.fiberspecs["dispersion_y_data"]
            return 1
""","""        specs = self.fiberspecs
        if specs["dispersion_format"] == "D":
            for target, source in (("dispersion_x_units", "dispersion_x_units"),
                                   ("dispersion_y_units", "dispersion_y_units"),
                                   ("x", "dispersion_x_data"), ("y", "dispersion_y_data")):
                setattr(self, target, specs[source])
            return 1
"""))
# --- calculators
ref('ca1',(CAL,"""    for i in range(len(Betas)):
        Betas[i] = Betas[i] * factorial(i)
        polyFit = polyFit + Betas[i] / factorial(i)*omegaAxis**i
""","""    orders = np.arange(len(Betas))
    polyFit = np.polyval(polyFitCo, omegaAxis)
    Betas = Betas * factorial(orders)
"""))
ref('ca2',(CAL,"""    DTab[:,1] = DTab[:,1] * 1e-12 * 1e9 * 1e-3
    c = constants.speed_of_light
    
    omegaAxis = 2*np.pi*c  / (DTab[:,0]*1e-9) - 2*np.pi*c  /(lambda0 * 1e-9)
    # Convert from D to beta via  beta2 = -D * lambda^2 / (2*pi*c) 
    
    betaTwo = -DTab[:,1] * (DTab[:,0]*1e-9)**2 / (2*np.pi*c) 
""","""    c = constants.speed_of_light
    wl_m = DTab[:, 0] * 1e-9
    D_mks = DTab[:, 1] * 1e-6
    omegaAxis = 2*np.pi*c * (1.0 / wl_m - 1.0 / (lambda0 * 1e-9))
    betaTwo = -D_mks * wl_m**2 / (2*np.pi*c)
"""))
ref('ca3',(CAL,"""    for i in range(len(Betas)):
        Betas[i] = Betas[i] * factorial(i)
        polyFit = polyFit + Betas[i] / factorial(i)*omegaAxis**i
""","""    Betas = np.array([factorial(k) * coeff for k, coeff in enumerate(Betas)])
    for k, beta in enumerate(Betas):
        polyFit = polyFit + beta * omegaAxis**k / factorial(k)
"""))
ref('ca4',(CAL,"""    Betas = polyFitCo[::-1]
""","""    Betas = np.flip(polyFitCo, 0).copy()
"""))
ref('jf1',(JFL,"""        file_handle =  open(picklefile, 'r')
        data= file_handle.read()
        self.fibers = jsonpickle.decode(data)
        file_handle.close()
""","""        with open(picklefile) as handle:
            self.fibers = jsonpickle.decode(handle.read())
"""))
ref('jf2',(JFL,"""        if file_dir is None:
            root = os.path.abspath(os.path.dirname(__file__))
        else:
            root = file_dir
        picklefile = os.path.join(root, fiber_collection+'.txt')
""","""        root = file_dir
        if root is None:
            root = os.path.dirname(os.path.abspath(__file__))
        picklefile = os.path.join(root, '%s.txt' % fiber_collection)
"""))
# --- DFG
ref('df1',(DFG,"""        self.phi_p[:] = np.exp(1j * ((self.k_p + self.k_p_0) * z - t * self.pump.W_mks))
        self.phi_s[:] = np.exp(1j * ((self.k_s + self.k_s_0) * z - t * self.sgnl.W_mks))
        self.phi_i[:] = np.exp(1j * ((self.k_i + self.k_i_0) * z - t * self.idlr.W_mks))

                                        
        z_to""","""        self.phi_p[:] = self._phasor(self.k_p, self.k_p_0, self.pump, z, t)
        self.phi_s[:] = self._phasor(self.k_s, self.k_s_0, self.sgnl, z, t)
        self.phi_i[:] = self._phasor(self.k_i, self.k_i_0, self.idlr, z, t)
        z_to"""),(DFG,"""    def deriv(self, z, y, dydx):""","""    @staticmethod
    def _phasor(k, k0, pulse, z, t):
        return np.exp(1j * ((k + k0) * z - t * pulse.W_mks))

    def deriv(self, z, y, dydx):"""))
ref('df2',(DFG,"""            dydx[0  :L  ] = 1j * 2 * self.AsAi * self.pump.W_mks * deff / (constants.speed_of_light * self.n_p) / \\
                    (self.pump_P_to_a) 
            # signal
            dydx[L  :2*L] = 1j * 2 * self.ApAi * self.sgnl.W_mks * deff / (constants.speed_of_light * self.n_s) / \\
                    (self.sgnl_P_to_a) 
            # idler
            dydx[2*L:3*L] = 1j * 2 * self.ApAs * self.idlr.W_mks * deff / (constants.speed_of_light * self.n_i) / \\
                    (self.idlr_P_to_a) ""","""            def rate(mixed, pulse, n, P_to_a):
                return 2j * deff * pulse.W_mks * mixed / (self.c * n * P_to_a)
            dydx[:] = np.concatenate((rate(self.AsAi, self.pump, self.n_p, self.pump_P_to_a),
                                      rate(self.ApAi, self.sgnl, self.n_s, self.sgnl_P_to_a),
                                      rate(self.ApAs, self.idlr, self.n_i, self.idlr_P_to_a)))"""))
ref('df3',(DFG,"""            dydx[0  :L  ] = 1j * 2 * self.AsAi * self.pump.W_mks * deff / (constants.speed_of_light * self.n_p) / \\
                    (self.pump_P_to_a) 
            # signal
            dydx[L  :2*L] = 1j * 2 * self.ApAi * self.sgnl.W_mks * deff / (constants.speed_of_light * self.n_s) / \\
                    (self.sgnl_P_to_a) 
            # idler
            dydx[2*L:3*L] = 1j * 2 * self.ApAs * self.idlr.W_mks * deff / (constants.speed_of_light * self.n_i) / \\
                    (self.idlr_P_to_a) ""","""            terms = ((self.AsAi, self.pump, self.n_p, self.pump_P_to_a),
                     (self.ApAi, self.sgnl, self.n_s, self.sgnl_P_to_a),
                     (self.ApAs, self.idlr, self.n_i, self.idlr_P_to_a))
            for which, (mixed, pulse, n, P_to_a) in enumerate(terms):
                dydx[which*L:(which+1)*L] = 1j * 2 * mixed * pulse.W_mks * deff / \\
                    (constants.speed_of_light * n) / P_to_a"""))
ref('df4',(DFG,"""        self.AsAi[:] =  np.power(self.phi_p, -1.0)*\\
            self.fftobject.conv(self.sgnl_P_to_a * self.As(y) * self.phi_s,
                                self.idlr_P_to_a * self.Ai(y) * self.phi_i)
            
        self.ApAs[:] =  np.power(self.phi_i, -1.0)*\\
            self.fftobject.corr(self.pump_P_to_a * self.Ap(y) * self.phi_p,
                                self.sgnl_P_to_a * self.As(y) * self.phi_s)
            
        self.ApAi[:] =  np.power(self.phi_s, -1.0)*\\
            self.fftobject.corr(self.pump_P_to_a * self.Ap(y) * self.phi_p, 
                                self.idlr_P_to_a * self.Ai(y) * self.phi_i)
""","""        Ep = self.pump_P_to_a * self.phi_p * self.Ap(y)
        Es = self.sgnl_P_to_a * self.phi_s * self.As(y)
        Ei = self.idlr_P_to_a * self.phi_i * self.Ai(y)
        self.AsAi[:] = self.fftobject.conv(Es, Ei) / self.phi_p
        self.ApAs[:] = self.fftobject.corr(Ep, Es) / self.phi_i
        self.ApAi[:] = self.fftobject.corr(Ep, Ei) / self.phi_s
"""))
ref('df5',(DFG,"""        if self.crystal.mode == 'PP':          
            deff = self.poling(z) * self.crystal.deff   
        elif self.crystal.mode == 'BPM' or self.crystal.mode == 'simple':
            deff = self.crystal.deff
        else:
            raise AttributeError('Crystal type not known; deff not set.')
""","""        mode = self.crystal.mode
        if mode not in ('PP', 'BPM', 'simple'):
            raise AttributeError('Crystal type not known; deff not set.')
        deff = self.crystal.deff
        if mode == 'PP':
            deff = deff * self.poling(z)
"""))
ref('df6',(DFG,"""        if ((self.domain_lb < x) * (x < self.domain_ub)).any():
            return -1
        else:
            return 1
""","""        inverted = np.logical_and(self.domain_lb < x, self.domain_ub > x)
        return -1 if np.any(inverted) else 1
"""))
ref('df7',(DFG,"""            domain_lb.append(z_current+self.crystal.pp(z_current) * 0.5)
            domain_ub.append(z_current+self.crystal.pp(z_current) * 1.0)
            z_current += self.crystal.pp(z_current)
""","""            period = self.crystal.pp(z_current)
            domain_lb.append(z_current + 0.5 * period)
            z_current = z_current + period
            domain_ub.append(z_current)
"""))
ref('df8',(DFG,"""        for i in range(solver_out.count):
            z = zs[i]
            t =  z / pump_pulse_speed

            phi_p = np.exp(1j * ((self.k_p + self.k_p_0) * z - t * self.pump.W_mks) )
            phi_s = np.exp(1j * ((self.k_s + self.k_s_0) * z - t * self.sgnl.W_mks))
            phi_i = np.exp(1j * ((self.k_i + self.k_i_0) * z - t * self.idlr.W_mks))


            pump_out[i, :] *= phi_p
            sgnl_out[i, :] *= phi_s
            idlr_out[i, :] *= phi_i
""","""        for i, z in enumerate(zs):
            t = z / pump_pulse_speed
            for out, k, k0, pulse in ((pump_out, self.k_p, self.k_p_0, self.pump),
                                      (sgnl_out, self.k_s, self.k_s_0, self.sgnl),
                                      (idlr_out, self.k_i, self.k_i_0, self.idlr)):
                out[i, :] = out[i, :] * np.exp(1j * ((k + k0) * z - t * pulse.W_mks))
"""))
ref('df9',(DFG,"""        self.pulse.set_AW(self.pump_field[n])
        self.pulse.set_center_wavelength_nm(self.pump_wl)
        return self.pulse
""","""        return self._load(self.pump_field[n], self.pump_wl)

    def _load(self, field, wl):
        self.pulse.set_center_wavelength_nm(wl)
        self.pulse.set_AW(field)
        return self.pulse
"""),(DFG,"""        self.pulse.set_AW(self.sgnl_field[n])
        self.pulse.set_center_wavelength_nm(self.sgnl_wl)
        return self.pulse
""","""        return self._load(self.sgnl_field[n], self.sgnl_wl)
"""))
ref('df10',(DFG,"""        self.corrin[:] = 0
        self.corrin[:n] = data2
        temp = np.conjugate(np.copy(self.fft()))
        
        self.corrin[:] = 0
        self.corrin[:n] = data1
        ans = self.fft()
        ans[:] = ans*temp
""","""        temp = np.conj(self._spectrum(data2))
        ans = self._spectrum(data1)
        self.corrtransfer[:] = ans*temp
"""),(DFG,"""    def corr(self, data1, data2):""","""    def _spectrum(self, data):
        self.corrin[:self.gridsize] = data
        self.corrin[self.gridsize:] = 0
        return np.copy(self.fft())
    def corr(self, data1, data2):"""))
ref('df11',(DFG,"""        self.k_p_0  = self.k_p[int(len(self.k_p)/2.0)]
        self.k_s_0  = self.k_s[int(len(self.k_s)/2.0)]
        self.k_i_0  = self.k_i[int(len(self.k_i)/2.0)]
        
        self.k_p    -= self.k_p_0
        self.k_s    -= self.k_s_0
        self.k_i    -= self.k_i_0        
""","""        mid = self.veclength // 2
        for name in ('k_p', 'k_s', 'k_i'):
            k = getattr(self, name)
            setattr(self, name + '_0', k[mid])
            setattr(self, name, k - k[mid])
"""))
ref('df12',(DFG,"""        self.approx_pulse_speed = max([max(constants.speed_of_light / self.n_p),
                                       max(constants.speed_of_light / self.n_s),
                                       max(constants.speed_of_light / self.n_i)])
""","""        self.approx_pulse_speed = max(np.max(self.c / n) for n in (self.n_p, self.n_s, self.n_i))
"""))
ref('df13',(DFG,"""        self.ystart = np.array(np.hstack((self.pump.AW,
                                          self.sgnl.AW,
                                          self.idlr.AW )),
                                          dtype='complex128')
""","""        self.ystart = np.empty(3 * self.veclength, dtype='complex128')
        for which, pulse in enumerate((self.pump, self.sgnl, self.idlr)):
            self.ystart[which*self.veclength:(which+1)*self.veclength] = pulse.AW
"""))
ref('df14',(DFG,"""        if ( max(pump_in.wl_nm) > min(sgnl_in.wl_nm) ): 
            print ("pump_max: ", max(pump_in.wl_nm))            
            print ("sgnl min: ", min(sgnl_in.wl_nm))            
            raise ValueError("Pump and signal field grids overlap.")
""","""        if np.max(pump_in.wl_nm) > np.min(sgnl_in.wl_nm):
            raise ValueError("Pump and signal field grids overlap.")
"""))
ref('df15',(DFG,"""        return fftpack.ifftshift(np.copy(self.ifft()))[(n>>1):n+(n>>1)]
        
    def conv""","""        back = np.copy(self.ifft())
        start = n // 2
        return fftpack.ifftshift(back)[start:start + n]
        
    def conv"""))
ref('df16',(DFG,"""        idler_cwl_natural = 1.0/(1.0/pump_in.center_wavelength_nm -\\
                             1.0/sgnl_in.center_wavelength_nm)
""","""        pump_nm, sgnl_nm = pump_in.center_wavelength_nm, sgnl_in.center_wavelength_nm
        idler_cwl_natural = pump_nm * sgnl_nm / (sgnl_nm - pump_nm)
"""))
ref('df17',(DFG,"""            if (np.mean(waist_p) <= np.mean(waist_s)) and (np.mean(waist_p) <= np.mean(waist_i)):            
""","""            mean_p, mean_s, mean_i = (np.mean(w) for w in (waist_p, waist_s, waist_i))
            if mean_p <= min(mean_s, mean_i):
"""),(DFG,"""            elif np.mean(waist_s) <= np.mean(waist_i):         
""","""            elif mean_s <= mean_i:
"""))
# --- field classes
ref('fl1',(FLD,"""        if A < 0 or A>2 or B<0 or B>2:""","""        if not (0 <= A <= 2 and 0 <= B <= 2):"""))
ref('fl2',(FLD,"""        new_obj = ThreeFields(self.NPTS)
        new_obj.set_all(self.get_all())
        return new_obj
""","""        duplicate = ThreeFields(self.NPTS)
        duplicate.fields = self.fields.copy()
        return duplicate
"""))
ref('fl3',(FLD,"""        if A < 0 or A>2 or B<0 or B>2:
            e = ValueError('A & B must be in range [0,2].')
            raise e
""","""        for index in (A, B):
            if index not in (0, 1, 2):
                raise ValueError('A & B must be in range [0,2].')
"""))
# --- reader / writer
ref('rw1',(RW,"""        pump_field  = self.tables_file.get_node(run+'/pump')[:,z_num]
        pump_Twind  = self.tables_file.get_node(run+'/pump_Twind')[0]
        pump_center = self.tables_file.get_node(run+'/pump_center_nm')[0]
        p = Pulse()
        p.set_NPTS(len(pump_field))
        p.set_center_wavelength_nm(pump_center)
        p.set_time_window_ps(pump_Twind)
        p.set_AW(pump_field)
        p.set_frep_MHz(self.frep_Hz * 1.0e-6)
""","""        p = self._read_pulse(run, 'pump', z_num)
"""),(RW,"""        sgnl_field  = self.tables_file.get_node(run+'/sgnl')[:,z_num]
        sgnl_Twind  = self.tables_file.get_node(run+'/sgnl_Twind')[0]
        sgnl_center = self.tables_file.get_node(run+'/sgnl_center_nm')[0]
        s = Pulse()
        s.set_NPTS(len(sgnl_field))
        s.set_center_wavelength_nm(sgnl_center)
        s.set_time_window_ps(sgnl_Twind)
        s.set_AW(sgnl_field)
        s.set_frep_MHz(self.frep_Hz * 1.0e-6)
""","""        s = self._read_pulse(run, 'sgnl', z_num)
"""),(RW,"""    def get_next_run(self, z_num = None) :""","""    def _read_pulse(self, run, name, z_num):
        get = self.tables_file.get_node
        field = get('%s/%s' % (run, name))[:, z_num]
        pulse = Pulse(frep_MHz=self.frep_Hz * 1.0e-6, n=len(field))
        pulse.set_time_window_ps(get(run + '/' + name + '_Twind')[0])
        pulse.set_center_wavelength_nm(get(run + '/' + name + '_center_nm')[0])
        pulse.set_AW(field)
        return pulse

    def get_next_run(self, z_num = None) :"""))
ref('rw2',(RW,"""        for n in self.tables_file.list_nodes(self.root_name):
            self.run_ctr += 1
""","""        self.run_ctr = len(self.tables_file.list_nodes(self.root_name))
"""))
ref('rw3',(RW,"""        atom = tables.Atom.from_dtype(odesolver.out.ysave[0:count, 0 : npts].T.dtype)
        data_shape = odesolver.out.ysave[0:count, 0 : npts].T.shape
        pump_data = self.tables_file.create_carray(grp, 'pump', atom, data_shape)
        pump_data[:] = odesolver.out.ysave[0:count, 0 : npts].T
        sgnl_data = self.tables_file.create_carray(grp, 'sgnl', atom, data_shape)      
        sgnl_data[:] = odesolver.out.ysave[0:count, npts : 2 * npts].T
        idlr_data = self.tables_file.create_carray(grp, 'idlr', atom, data_shape)
        idlr_data[:] = odesolver.out.ysave[0:count, 2*npts : 3 * npts].T
""","""        saved = odesolver.out.ysave[:count]
        for which, name in enumerate(('pump', 'sgnl', 'idlr')):
            block = saved[:, which*npts:(which+1)*npts].T
            atom = tables.Atom.from_dtype(block.dtype)
            node = self.tables_file.create_carray(grp, name, atom, block.shape)
            node[:] = block
"""))
ref('rw4',(RW,"""        if run_num is None:
            run_num = self.run_ctr - 1
        if run_num < 0 or run_num >= self.run_ctr:
            raise IndexError(str(run_num)+' not a valid run index.')
        param""","""        run_num = self._checked(run_num)
        param"""),(RW,"""    def get_next_run(self, z_num = None) :""","""    def _checked(self, run_num):
        if run_num is None:
            run_num = self.run_ctr - 1
        if not 0 <= run_num < self.run_ctr:
            raise IndexError('%d not a valid run index.' % run_num)
        return run_num

    def get_next_run(self, z_num = None) :"""))
ref('rw5',(RW,"""        if self.int_ctr < self.run_ctr:
            self.int_ctr += 1
            return self.get_run(self.int_ctr - 1, z_num)
""","""        current = self.int_ctr
        if current >= self.run_ctr:
            return None
        self.int_ctr = current + 1
        return self.get_run(current, z_num)
"""))
# --- ODE
ref('st1',(ST,"""        newx        = np.zeros((self.kmax,), dtype = self.xsave.dtype)
        newx[:kold] = self.xsave
        self.xsave  = newx
        # Reshape y
        newy        = np.zeros((self.kmax, self.nvar), dtype = self.dtype)
        newy[0:kold,:] = self.ysave
        self.ysave     = newy
""","""        self.xsave = np.concatenate((self.xsave, np.zeros(kold, dtype=self.xsave.dtype)))
        newy        = np.zeros((self.kmax, self.nvar), dtype = self.dtype)
        newy[:kold] = self.ysave
        self.ysave  = newy
"""))
ref('st2',(ST,"""        if self.count == self.kmax:
            self.resize()
        self.ysave[self.count, :]   = y
        self.xsave[self.count]      = x
        self.count += 1        
""","""        self._append(x, y)

    def _append(self, x, y):
        if self.count >= self.kmax:
            self.resize()
        k = self.count
        self.xsave[k], self.ysave[k] = x, y
        self.count = k + 1
"""))
ref('st3',(ST,"""        if nstp == -1:
            self.save(x,y)
            self.xout += self.dxout
        else:
            while (x-self.xout)*(self.x2-self.x1) > 0.0:
                self.save_dense(s, self.xout, h)
                self.xout += self.dxout
""","""        if nstp == -1:
            self.save(x,y)
            self.xout = self.xout + self.dxout
            return
        forward = self.x2 > self.x1
        while True:
            remaining = (x - self.xout)*(self.x2 - self.x1)
            if not remaining > 0.0:
                break
            self.save_dense(s, self.xout, h)
            self.xout = self.xout + self.dxout
"""))
ref('st4',(ST,"""            if self.s.hdid == self.h:
                self.nok+=1
            else:
                self.nbad+=1
            if self.dense:
                self.out.out(self.nstp, self.s.x, self.s.y, self.s, self.s.hdid)
            else:
                self.out.save(self.s.x, self.s.y)
""","""            stepper = self.s
            if stepper.hdid != self.h:
                self.nbad+=1
            else:
                self.nok+=1
            if not self.dense:
                self.out.save(stepper.x, stepper.y)
            else:
                self.out.out(self.nstp, stepper.x, stepper.y, stepper, stepper.hdid)
"""))
ref('st5',(ST,"""                if self.out.kmax > 0 and\\
                        abs(self.out.xsave[self.out.count-1]-self.x2) >\\
                        100.0*abs(self.x2)*self.EPS:
                    self.out.save(self.s.x, self.s.y)
                return
""","""                if self.out.kmax > 0:
                    last = self.out.xsave[self.out.count-1]
                    tolerance = 100.0*self.EPS*abs(self.x2)
                    if abs(self.x2 - last) > tolerance:
                        self.out.save(self.s.x, self.s.y)
                return
"""))
ref('st6',(ST,"""         self.h     = np.abs(h1)*np.sign(xx2-xx1)
""","""         self.h     = np.copysign(1.0, xx2 - xx1) * abs(h1) if xx2 != xx1 else 0.0 * abs(h1)
"""))
ref('do1',(DO,"""        err2 = np.sum( pow(np.abs(self.yerr )/sk, 2) )
        err1 = np.sum( pow(np.abs(self.yerr2)/sk, 2) )
        deno = err1 + 0.01 * err2
        if deno <= 0.0:
            deno = 1.0
        return abs(abs(h) * np.abs(err1) * np.sqrt(1.0 / (deno*self.n)))
""","""        err2 = np.sum((np.abs(self.yerr) / sk)**2)
        err1 = np.sum((np.abs(self.yerr2) / sk)**2)
        deno = err1 + 0.01 * err2
        deno = deno if deno > 0.0 else 1.0
        return abs(h) * err1 / np.sqrt(deno * self.n)
"""))
ref('do2',(DO,"""        while True:
            self.dy(h, RHS_class)            
            err = self.error(h)
            success, h = self.con.success(err, h)
            if success:
                break
            if abs(h) <= abs(self.x)*self.EPS:
                e = OverflowError('stepsize underflow in StepperDopri853')
                raise e
""","""        success = False
        while not success:
            self.dy(h, RHS_class)
            success, h = self.con.success(self.error(h), h)
            if not success and abs(h) <= abs(self.x)*self.EPS:
                raise OverflowError('stepsize underflow in StepperDopri853')
"""))
ref('do3',(DO,"""        self.rcont1[:]=self.y
        ydiff=self.yout-self.y
        self.rcont2[:]=ydiff;
        bspl=h*self.dydx-ydiff;
        self.rcont3[:]=bspl;
        self.rcont4[:]=ydiff-h*dydxnew-bspl
""","""        self.rcont1[:]=self.y
        self.rcont2[:]=self.yout-self.y
        self.rcont3[:]=h*self.dydx-self.rcont2
        self.rcont4[:]=self.rcont2-self.rcont3-h*dydxnew
"""))
ref('do4',(DO,"""        s = (x - self.xold) / h
        s1 = 1.0 - s
        return self.rcont1+s*(self.rcont2+s1*(self.rcont3+s*(self.rcont4+s1*(self.rcont5+\\
		s*(self.rcont6+s1*(self.rcont7+s*self.rcont8))))))
""","""        s = (x - self.xold) / h
        s1 = 1.0 - s
        result = self.rcont8
        parts = (self.rcont7, self.rcont6, self.rcont5, self.rcont4, self.rcont3, self.rcont2, self.rcont1)
        for index, part in enumerate(parts):
            result = part + (s if index % 2 == 0 else s1) * result
        return result
"""))
ref('do5',(DO,"""        self.k2     = self.gen_array()
        self.k3     = self.gen_array()
        self.k4     = self.gen_array()
        self.k5     = self.gen_array()
        self.k6     = self.gen_array()
        self.k7     = self.gen_array()
        self.k8     = self.gen_array()
        self.k9     = self.gen_array()
        self.k10    = self.gen_array()
""","""        for stage in range(2, 11):
            setattr(self, 'k%d' % stage, self.gen_array())
"""))
ref('do6',(DO,"""        RHS_class.deriv(x+dc.c4*h,ytemp,self.k4)
        ytemp[:]=y+h*(dc.a51*dydx+dc.a53*self.k3+dc.a54*self.k4)
""","""        deriv = RHS_class.deriv
        deriv(x+dc.c4*h,ytemp,self.k4)
        increment = dc.a51*dydx
        increment = increment + dc.a53*self.k3
        increment += dc.a54*self.k4
        ytemp[:] = y + h*increment
"""))
ref('ct1',(CT,"""       if err <= 1.0:
           if err == 0.0:
               scale = maxscale
           else:
               scale = safe*np.power(err, -alpha)*np.power(err, beta)
               if scale < minscale:
                   scale = minscale
               if scale > maxscale:
                   scale = maxscale
           if self.reject:
               self.hnext = h*min(scale, 1.0)
           else:
               self.hnext = h*scale
""","""       if err <= 1.0:
           if err == 0.0:
               scale = maxscale
           else:
               scale = min(max(safe*err**(beta-alpha), minscale), maxscale)
           if self.reject and scale > 1.0:
               scale = 1.0
           self.hnext = h*scale
"""))
ref('ct2',(CT,"""           scale = max(safe*np.power(err, -alpha), minscale)
           h *= scale
           if DEBUG:
               print ('Reject, ',h)
           self.reject = True
           return (False, h)""","""           self.reject = True
           shrink = safe / err**alpha
           if shrink < minscale:
               shrink = minscale
           return False, h * shrink"""))
