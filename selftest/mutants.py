M = []


def add(prop, expect, *edits, note='', **k): M.append(dict(prop=prop, expect=expect, edits=edits, note=note, **k))


I, EU, SR = 'physics_iso2d.hpp', 'physics_euler.hpp', 'physics_srhd.hpp'
# ---- round trip
add('C21', 'fire', (I, 'S * (x[0] * v[1] - x[1] * v[0])', 'S * (x[0] * v[1] + x[1] * v[0])'))
add('C21', 'fire', (I, 'auto vy = (sr * x[1] + lz * x[0]) / r2;', 'auto vy = (sr * x[1] - lz * x[0]) / r2;'))
add('C21', 'fire', (EU, '- 0.5 * p_squared / d) * (gamma_law_index - 1.0)', '- 0.5 * p_squared / d) * (gamma_law_index - 1.01)'))
add('C21', 'fire', (EU, 'P[4] = temperature_floor * d;', 'P[4] = temperature_floor;'))
add('C21', 'fire', (SR, 'auto e   = (tau + D * (1.0 - W) + p * (1.0 - W2)) / (D * W);', 'auto e   = (tau + D * (1.0 - W) + p * (1.0 - W)) / (D * W);'))
add('C21', 'fire', (SR, 'P[2] = W0 * U[S22].value / (tau + D + p);', 'P[2] = W0 * U[S22].value / (tau + p);'))
add('C21', 'fire', (SR, 'error_tolerance      = 1e-10', 'error_tolerance      = 1e-4'))
add('C21', 'fire', (SR, 'U[4].value = D * h * W - p - D;', 'U[4].value = D * h * W - p;'))
add('C21', 'quiet', (EU, "P[4] = (U[4].value - 0.5 * p_squared / d) * (gamma_law_index - 1.0);", "auto ek = p_squared / (2.0 * d); P[4] = gamma_law_index * (U[4].value - ek) + ek - U[4].value;"))
add('C21', 'quiet', (SR, """    while (iteration < newton_iter_max)
    {""", """    while (! solution_found && iteration < newton_iter_max)
    {"""), (SR, """            solution_found = true;
            break;
        }
        ++iteration;""", """            solution_found = true;
        }
        ++iteration;"""), note='while flag loop')
add('C25', 'quiet', (SR, """    while (iteration < newton_iter_max)
    {""", """    while (! solution_found && iteration < newton_iter_max)
    {"""), (SR, """            solution_found = true;
            break;
        }
        ++iteration;""", """            solution_found = true;
        }
        ++iteration;"""), note='while flag loop')
add('C21', 'quiet', (SR, 'while (iteration < newton_iter_max)', 'for (; iteration < newton_iter_max; ++iteration)'), (SR, """            break;
        }
        ++iteration;""", """            break;
        }"""), note='for loop')
add('C21', 'quiet', (I, 'auto r2 = (x * x).sum();', 'auto r2 = x[1] * x[1] + x[0] * x[0];'), all=True)
# ---- flux
add('C22', 'fire', (EU, 'F[4] = v * U[4].value + p * v;', 'F[4] = v * U[4].value;'))
add('C22', 'fire', (SR, 'F[3].value = v * U[3].value + p * nhat.get_n3();', 'F[3].value = v * U[3].value + p * nhat.get_n2();'))
add('C22', 'fire', (SR, '1 - vv * c2 - v2 * (1 - c2)', '1 - vv * c2 - v2 * (1 + c2)'))
add('C22', 'fire', (I, '(Ek + pg) * 2.0', 'Ek + pg * 2.0'))
add('C22', 'fire', (SR, "S[3] =        -up * H * (ur + uq * cotq) / r;", "S[3] =        -up * H * (ur - uq * cotq) / r;"))
add('C22', 'fire', (I, 'auto vy = std::max(std::abs(ay.m.value), std::abs(ay.p.value));', 'auto vy = std::max(ay.m.value, ay.p.value);'))
add('C22', 'quiet', (I, """        auto vx = std::max(std::abs(ax.m.value), std::abs(ax.p.value));
        auto vy = std::max(std::abs(ay.m.value), std::abs(ay.p.value));
        return std::max(vx, vy);""", """        (void) ax; (void) ay;
        auto cs = std::sqrt(sound_speed_squared);
        return std::max(std::abs(velocity_x()), std::abs(velocity_y())) + cs;"""))
add('C22', 'quiet', (EU, 'auto cotq = std::tan(M_PI_2 - polar_angle_theta);', 'auto cotq = std::cos(polar_angle_theta) / std::sin(polar_angle_theta);'))
add('C22', 'quiet', (SR, 'auto vv = uu / (1 + uu);', 'auto vv = 1 - 1 / (1 + uu);'))
# ---- reject
add('C25', 'fire', (SR, 'if (P.mass_density() <= 0.0)', 'if (P.mass_density() < 0.0)'))
add('C25', 'fire', (SR, 'if (P.gas_pressure() <= 0.0)', 'if (P.gas_pressure() < -1e-12)'))
add('C25', 'fire', (SR, 'if (! solution_found)', 'if (! solution_found && iteration == 0)'))
add('C25', 'fire', (SR, 'if (std::isnan(W0))', 'if (std::isinf(W0))'))
add('C25', 'fire', (I, 'if (sigma < 0.0)', 'if (sigma < -1e-3)'))
add('C25', 'quiet', (SR, 'if (P.mass_density() <= 0.0)', 'if (! (P.mass_density() > 0.0))'))
add('C25', 'fire', (I, """        else if (sr    <= 0.0                ) return Fr();
        throw""", """        else return Fr();
        throw"""))
# ---- riemann
add('C23', 'fire', (EU, 'std::max(Al.p, Ar.p)', 'std::max(Al.p, Al.p)'))
add('C23', 'fire', (SR, '(Ul - Ur) * ap * am', '(Ur - Ul) * ap * am'))
add('C23', 'fire', (I, 'auto am = std::min(make_velocity(0.0), std::min(Al.m, Ar.m));', 'auto am = std::min(Al.m, Ar.m);'))
add('C23', 'fire', (I, 'return Fr() + (Ur_star() - Ur()) * make_velocity(sr);', 'return Fr() + (Ur_star() - Ur()) * make_velocity(sl);'))
add('C23', 'fire', (I, 'auto ql = std::max(1.0, std::sqrt(pstar / press_l));', 'auto ql = std::max(1.0, std::sqrt(pstar / press_r));'))
add('C23', 'fire', (I, 'sigma_r * (sr - ur) / (sr - sstar) * (sstar * nhat[1] + v_perp_r[1])', 'sigma_r * (sr - ur) / (sr - sstar) * (sstar * nhat[1] + v_perp_l[1])'))
add('C23', 'quiet', (EU, """    return (Fl * ap - Fr * am - (Ul - Ur) * ap * am) / (ap - am);""", """    if (! (am < make_velocity(0.0))) return Fl;
    if (! (make_velocity(0.0) < ap)) return Fr;
    return (Fl * ap - Fr * am + (Ur - Ul) * (ap * am)) / (ap - am);"""), note='early return')
add('C23', 'quiet', (I, """        if      (0.0   <= sl                 ) return Fl();
        else if (sl    <= 0.0 && 0.0 <= sstar) return Fl() + (Ul_star() - Ul()) * make_velocity(sl);
        else if (sstar <= 0.0 && 0.0 <= sr   ) return Fr() + (Ur_star() - Ur()) * make_velocity(sr);
        else if (sr    <= 0.0                ) return Fr();
""", """        if (sr <= 0.0) return Fr();
        if (sl >= 0.0) return Fl();
        if (sstar >= 0.0 && sl <= 0.0) return Fl() + (Ul_star() - Ul()) * make_velocity(sl);
        if (sstar <= 0.0 && sr >= 0.0) return Fr() + (Ur_star() - Ur()) * make_velocity(sr);
"""), note='reordered')
# ---- eigen
add('C24', 'fire', (EU, '{u * (0.5 * m * V2 - H), H - m * u2,', '{u * (0.5 * m * V2 - H), H - m * V2,'))
add('C24', 'fire', (EU, '(u - a, u, u, u, u + a)', '(u - a, u, u, u + a, u)'))
add('C24', 'fire', (EU, '{ -2 * H + (4 / m) * a2,', '{ -2 * H + (2 / m) * a2,'))
add('C24', 'quiet', (EU, '{m * H - u2 - a2, ', '{0.5 * m * V2 - u2, '))
# ---- C07
D = 'core_dimensional.hpp'
add('C07', 'fire', (D, 'static_assert(C == 0 && G == 0 && S == 0,', 'static_assert(C == 0 && G == 0,'))
add('C07', 'fire', (D, 'static_assert((S * N) % D == 0, "non-integer dimensions not supported");', ''))
add('C07', 'fire', (D, 'template<typename T> using unit_torque       = dimensional_value_t< 2, 1,-2, T>;', 'template<typename T> using unit_torque       = dimensional_value_t< 2, 1,-1, T>;'))
add('C07', 'quiet', (D, 'auto operator<(dimensional_value_t<C, G, S, T> other) const { return value < other.value; }', 'bool operator<(const dimensional_value_t& other) const { return other.value > value; }'))
add('C07', 'fire', (D, '    T value = 0;\n', '    explicit operator T() const { return value; }\n    T value = 0;\n'))
add('C07', 'fire', (D, 'auto operator>=(dimensional_value_t<C, G, S, T> other) const { return value >= other.value; }', 'auto operator>=(dimensional_value_t<C, G, S, T> other) const { return value >= other.value; }\n    template<int S1> auto operator>=(dimensional_value_t<C, G, S1, T> other) const { return value >= other.value; }'))
# ---- C19
RA = 'core_rational.hpp'
add('C19', 'fire', (RA, 'return rational_number_t(a * d - b * c, b * d);', 'return rational_number_t(a * d - b * c, b * c);'))
add('C19', 'fire', (RA, '            den /= g;\n        }\n        else', '            den /= g;\n        }\n        else if (den == 0)'))
add('C19', 'fire', (RA, '            num *= -1;\n            den *= -1;', '            den *= -1;'))
add('C19', 'fire', (RA, 'd += 1;', 'd = 1;'))
add('C19', 'fire', (RA, 'else            b = (b - a) / 2;', 'else            b = b - a / 2;'))
add('C19', 'fire', (RA, 'return num == other.num && den == other.den;', 'return num == other.num;'))
add('C19', 'fire', (RA, 'return (*this - other).num <= 0;', 'return (*this - other).num < 0;'))
add('C19', 'fire', (RA, 'if (den == 0)\n        {\n            throw', 'if (den == 0 && num == 0)\n        {\n            throw'))
add('C19', 'fire', (RA, 'return -b + a;', 'return b - a;'))
add('C19', 'quiet', (RA, """        unsigned int d = 0;

        while (a % 2 == 0 && b % 2 == 0)
        {
            a /= 2;
            b /= 2;
            d += 1;
        }
        while (a != b)
        {
            if      (a % 2 == 0) a /= 2;
            else if (b % 2 == 0) b /= 2;
            else if (a > b) a = (a - b) / 2;
            else            b = (b - a) / 2;
        }
        return a * (1 << d);""", """        while (b != 0)
        {
            auto t = a % b;
            a = b;
            b = t;
        }
        return a;"""), note='euclid')
add('C19', 'quiet', (RA, '        auto a = num;\n        auto b = den;\n        auto c = other.num;\n        auto d = other.den;\n        return rational_number_t(a * d - b * c, b * d);', '        return *this + (-other);'), note='sub via neg')
add('C19', 'quiet', (RA, """        if (den < 0)
        {
            num *= -1;
            den *= -1;
        }""", """        const int sign = den < 0 ? -1 : 1;
        num = num * sign;
        den = sign * den;"""))
add('C19', 'quiet', (RA, 'return (*this - other).num < 0;', 'return other > *this;'))
# ---- C20
SQ = 'core_sequence.hpp'; TP = 'core_tuple.hpp'; MX = 'core_matrix.hpp'; GE = 'core_geometric.hpp'
add('C20', 'fire', (SQ, 'return this->operator[](Rank - n - 1);', 'return this->operator[](Rank - n - 1 + (n == 0 && Rank == 3 ? -1 : 0));'))
add('C20', 'fire', (SQ, 'return n < Rank ? __data[n] : other[n - Rank];', 'return n <= Rank ? __data[n] : other[n - Rank];'))
add('C20', 'fire', (SQ, 'for (std::size_t i = 1; i < Rank; ++i)\n            result = std::max', 'for (std::size_t i = 1; i < Rank - 1; ++i)\n            result = std::max'))
add('C20', 'fire', (SQ, 'bool operator!=(const DerivedType& other) const { return __impl.operator!=(other.__impl).any(); }', 'bool operator!=(const DerivedType& other) const { return __impl.operator!=(other.__impl).all(); }'))
add('C20', 'fire', (MX, 'element += M1(i, m) * M2(m, j);', 'element += M1(i, m) * M2(m, i);'))
add('C20', 'fire', (MX, 'if (operator()(i, j) != other(i, j))\n                    return true;', 'if (operator()(i, j) != other(j, i))\n                    return true;'))
add('C20', 'fire', (GE, 'auto n = std::sqrt(n1 * n1 + n2 * n2 + n3 * n3);', 'auto n = std::sqrt(n1 * n1 + n2 * n2) + n3;'))
add('C20', 'fire', (GE, 'case 2: return on_axis_3();', 'case 2: return on_axis_2();'))
add('C20', 'fire', (TP, 'template<typename... Ts> auto operator<=(const arithmetic_tuple_t<Ts...>& v) const { return binary_op(v, std::less_equal<>()); }', 'template<typename... Ts> auto operator<=(const arithmetic_tuple_t<Ts...>& v) const { return binary_op(v, std::less<>()); }'))
add('C20', 'quiet', (SQ, """        auto result = ValueType{};

        for (std::size_t i = 0; i < Rank; ++i)
            result = result + this->operator[](i);

        return result;""", """        auto result = ValueType{};
        for (const auto& x : *this)
        {
            result = x + result;
        }
        return result;"""))
add('C20', 'quiet', (SQ, 'return n < Rank ? __data[n] : other[n - Rank];', 'if (n >= Rank) return other[n - Rank]; else return __data[n];'))
add('C20', 'quiet', (MX, """    bool operator!=(const matrix_t& other) const
    {
        for (std::size_t i = 0; i < num_rows; ++i)
            for (std::size_t j = 0; j < num_cols; ++j)
                if (operator()(i, j) != other(i, j))
                    return true;
        return false;
    }""", """    bool operator!=(const matrix_t& other) const
    {
        return ! (*this == other);
    }"""))
add('C20', 'quiet', (MX, """            auto element = result_value_type();

            for (std::size_t m = 0; m < NumCols1Rows2; ++m)
            {
                element += M1(i, m) * M2(m, j);
            }
            result(i, j) = element;""", """            result(i, j) = result_value_type();
            std::size_t m = 0;
            while (m < NumCols1Rows2)
            {
                result(i, j) = result(i, j) + M2(m, j) * M1(i, m);
                m++;
            }"""))
add('C20', 'quiet', (GE, """    unit_vector_t(double n1, double n2, double n3) : n1(n1), n2(n2), n3(n3)
    {
        auto n = std::sqrt(n1 * n1 + n2 * n2 + n3 * n3);
        this->n1 /= n;
        this->n2 /= n;
        this->n3 /= n;
    }""", """    unit_vector_t(double x, double y, double z)
    {
        const auto inv = 1.0 / std::sqrt(x * x + y * y + z * z);
        n1 = x * inv;
        n2 = y * inv;
        n3 = z * inv;
    }"""))

N, NO = 'core_ndarray.hpp', 'core_ndarray_ops.hpp'
# ---- nd-arrays
add('C11', 'fire', (N, 'index[axis_to_extend] >= array.shape(axis_to_extend)', 'index[axis_to_extend] > array.shape(axis_to_extend)'))
add('C11', 'fire', (N, 'auto volume() const\n', 'auto volume() const\n') if False else (N, 'std::size_t(1), std::multiplies<>()', '1, std::multiplies<>()'), note='int volume')
add('C11', 'fire', (N, '(mapped_index[n] -  start[n]) % jumps[n] != 0', '(mapped_index[n]) % jumps[n] != 0'))
add('C11', 'fire', (N, 'shape[axis_to_shift] -= std::abs(delta);', 'shape[axis_to_shift] -= std::abs(delta) - 1;'))
add('C11', 'fire', (N, 'empty() ? final : start', 'start'))
add('C11', 'fire', (N, 'if (region.shape() != replacement_array.shape())', 'if (region.shape().volume() != replacement_array.shape().volume())'))
add('C11', 'fire', (N, 'while (index[n] >= final[n])', 'while (index[n] > final[n])'))
add('C11', 'quiet', (N, """        int n = Rank - 1;

        index[n] += jumps[n];

        while (index[n] >= final[n])
        {
            if (n == 0)
            {
                index = final;
                return false;
            }
            index[n] = start[n];

            --n;

            index[n] += jumps[n];
        }
        return true;""", """        for (std::size_t n = Rank; n-- > 0;)
        {
            index[n] += jumps[n];

            if (index[n] < final[n])
            {
                return true;
            }
            index[n] = start[n];
        }
        index = final;
        return false;"""), note='odometer as for loop')
add('C11', 'quiet', (N, """        auto result = index_t<Rank>();

        for (std::size_t n = 0; n < Rank; ++n)
            result[n] = start[n] + jumps[n] * index[n];

        return result;""", """        auto result = index;
        std::size_t n = 0;

        for (auto& i : result)
        {
            i = i * jumps[n] + start[n];
            ++n;
        }
        return result;"""))
add('C11', 'quiet', (N, """            if (index[axis_to_extend] >= array.shape(axis_to_extend))
            {
                index[axis_to_extend] -= array.shape(axis_to_extend);
                return array_to_concat(index);
            }
            return array(index);""", """            auto n0 = array.shape(axis_to_extend);

            if (index[axis_to_extend] < n0)
            {
                return array(index);
            }
            index[axis_to_extend] = index[axis_to_extend] - n0;
            return array_to_concat(index);"""))
add('C11', 'quiet', (N, """    for (auto index : target_accessor)
    {
        target_provider(index) = source_provider(index);
    }""", """    for (auto it = target_accessor.begin(); it != target_accessor.end(); ++it)
    {
        const auto index = *it;
        target_provider(index) = source_provider(index);
    }"""), note='iterator loop')
add('C11', 'quiet', (N, """    for (auto index : target_accessor)
    {
        target_provider(index) = source_provider(index);
    }""", """    if (! target_accessor.empty())
    {
        auto index = target_accessor.start;
        do { target_provider(index) = source_provider(index); } while (target_accessor.advance(index));
    }"""), note='do-while advance')
add('C11', 'quiet', (NO, """        return (
        (array | nd::select_axis(axis).from(1).to(0).from_the_end()) -
        (array | nd::select_axis(axis).from(0).to(1).from_the_end()));""", """        auto upper = array | nd::drop_first_on_axis(axis);
        auto lower = array | nd::drop_final_on_axis(axis);
        return upper - lower;"""))
add('C11', 'quiet', (NO, """        return (
        (array | nd::select_axis(axis).from(0).to(1).from_the_end()) +
        (array | nd::select_axis(axis).from(1).to(0).from_the_end())) * 0.5;""", """        return nd::zip(array | nd::drop_first_on_axis(axis), array | nd::drop_final_on_axis(axis)) | nd::apply([] (auto a, auto b) { return (a + b) / 2.0; });"""))
add('C11', 'quiet', (NO, """        auto xl = array | select_first(guard_count, axis);
        auto xr = array | select_final(guard_count, axis);
        return xr | nd::concat(array).on_axis(axis) | nd::concat(xl).on_axis(axis);""", """        auto n = array.shape(axis);
        auto xr = array | nd::select_axis(axis).from(n - guard_count).to(n);
        auto xl = array | nd::select_axis(axis).from(0).to(guard_count);
        return xr | nd::concat(array | nd::concat(xl).on_axis(axis)).on_axis(axis);"""))
add('C11', 'fire', (NO, """        auto xl = array | select_first(guard_count, axis);
        auto xr = array | select_final(guard_count, axis);""", """        auto xl = array | select_first(guard_count, axis);
        auto xr = array | select_final(guard_count, axis == 2 ? 2 : axis) | nd::select_first(1, axis);"""))
add('C11', 'fire', (NO, "auto xr = array | nd::select_final(1, axis) | nd::multiply(0);", "auto xr = array | nd::select_final(1, axis);"))
add('C11', 'fire', (NO, "array | nd::select_axis(axis).from(1).to(1).from_the_end(),", "array | nd::select_axis(axis).from(0).to(2).from_the_end(),"))
add('C11', 'fire', (N, "index[n] = start[n];\n\n            --n;", "index[n] = 0;\n\n            --n;"))
add('C11', 'fire', (N, "start[n] + jumps[n] * (s[n] - 1) >= parent_shape[n]", "start[n] + jumps[n] * (s[n] - 1) > parent_shape[n]"))

# ---- C12 blocks
PR = 'mesh_prolong_restrict.hpp'; TO = 'mesh_tree_operators.hpp'
add('C12', 'fire', (PR, "c1[axis] = fi[axis] / 2 + (fi[axis] % 2 == 0 ? 0 : 1);", "c1[axis] = fi[axis] / 2 + (fi[axis] % 4 == 0 ? 0 : 1);"))
add('C12', 'fire', (PR, "parent | nd::select_axis(axis).from(0).to(parent.shape(axis) / 2 + 1);", "parent | nd::select_axis(axis).from(0).to(parent.shape(0) / 2 + 1);"), note='axis 0 shape used')
add('C12', 'fire', (PR, "return combined_01 | drop_last(1) | nd::concat(combined_23).on_axis(1);", "return combined_23 | drop_last(1) | nd::concat(combined_01).on_axis(1);"))
add('C12', 'fire', (PR, "auto combined_0123 = combined_01 | nd::concat(combined_23).on_axis(1);", "auto combined_0123 = combined_01 | nd::concat(combined_45).on_axis(1);"))
add('C12', 'fire', (PR, "return (h0 + h1) / 2;", "return h0;"))
add('C12', 'fire', (TO, "auto ib = mara::to_integral(index.relative_to_parent().orthant());\n            return (tree.at(index.parent_index()) | mara::refine_cells", "auto ib = mara::to_integral(index.parent_index().relative_to_parent().orthant());\n            return (tree.at(index.parent_index()) | mara::refine_cells"))
add('C12', 'quiet', (PR, "c1[axis] = fi[axis] / 2 + (fi[axis] % 2 == 0 ? 0 : 1);", "c1[axis] = (fi[axis] + 1) / 2;"), note='same index')
add('C12', 'quiet', (PR, "return (h0 + h1) / 2;", "return (h1 + h0) * 0.5;"))
add('C12', 'quiet', (PR, "if (parent.shape(axis) % 2 != 0)", "if (parent.shape(axis) % 2 == 1)"))

# ---- C18 tree
TC = 'core_tree.hpp'
add('C18', 'fire', (TC, "(coordinates.at(a) + (1 << level) - 1) % (1 << level)", "(coordinates.at(a) + (1 << level) - 1) % (2 << level)"))
add('C18', 'fire', (TC, "coordinates.map([] (auto c) { return c % 2; })", "coordinates.map([] (auto c) { return c % 4; })"))
add('C18', 'fire', (TC, "children().map([d] (auto&& c) { return c.depth(d + 1); }).max()", "children().map([d] (auto&& c) { return c.depth(d + 1); }).min()"))
add('C18', 'fire', (TC, "return children()[n].binary_op(other.children()[n]", "return children()[n].binary_op(other.children()[n == 2 ? 1 : n]"))
add('C18', 'fire', (TC, "return ! index.coordinates.any();", "return true;"))
add('C18', 'fire', (TC, "coordinates * 2 + binary_repr<Rank>(i)", "coordinates * 2 + binary_repr<Rank>(i).reverse()"))
add('C18', 'fire', (TC, "return predicate(value()) ? tree_of<Rank>(bifurcate(value())) : *this;", "return tree_of<Rank>(bifurcate(value()));"))
add('C18', 'fire', ('mesh_tree_operators.hpp', "(tree.contains_node(i.prev_on(1)) && tree.node_at(i.prev_on(1)).depth() > 1)", "(tree.contains_node(i.prev_on(1)) && tree.node_at(i.prev_on(1)).depth() > 2)"))
add('C18', 'quiet', (TC, "return {level - 1, coordinates / 2};", "return {level - 1, coordinates.map([] (auto c) { return c >> 1; })};"), note='shift instead of division')
add('C18', 'quiet', (TC, "(coordinates.at(a) + (1 << level) + 1) % (1 << level)", "(coordinates.at(a) + 1) % (1 << level)"))
add('C18', 'quiet', (TC, """            for (const auto& c : children())
            {
                c.sink(fn);
            }""", """            for (std::size_t n = 0; n < (1 << Rank); ++n)
            {
                children()[n].sink(fn);
            }"""))
add('C18', 'quiet', (TC, """        return has_value() ? 1 : children().map([] (auto&& c) { return c.size(); }).sum();""", """        if (has_value())
        {
            return 1;
        }
        std::size_t n = 0;
        for (const auto& c : children())
        {
            n += c.size();
        }
        return n;"""))
add('C18', 'quiet', (TC, "return bool(value & (1 << n));", "return bool((value >> n) & 1);"))

SC, CF = 'app_schedule.hpp', 'app_config.hpp'
add('C03', 'fire', (SC, 'time - state.schedule.last_performed(name) >= interval', 'time - state.schedule.last_performed(name) > interval'))
add('C03', 'fire', (SC, 'time - state.schedule.last_performed(name) >= interval', 'time - next_schedule.last_performed(task_intervals[0].first) >= interval'))
add('C03', 'fire', (SC, 'next_schedule.mark_as_due(name, interval);', 'next_schedule.mark_as_due(name, time - state.schedule.last_performed(name));'))
add('C03', 'fire', (SC, 'if (state.schedule.is_due(task.first))', 'if (next.schedule.is_due(task.first))'))
add('C03', 'fire', (SC, 'next = task.second(next);', 'next = task.second(state);'))
add('C03', 'fire', (SC, 'at(task_name).is_due = false;        ', ''))
add('C03', 'fire', (SC, """        tasks[task_name] = {task_name, 0, 0.0, false};""", """        tasks[task_name] = {task_name, 1, 0.0, false};"""))
add('C03', 'fire', (SC, """        tasks[task.name] = task;""", """        tasks.insert({task.name, task}); tasks[task.name].is_due = false;"""))
add('C03', 'fire', (SC, """            next_schedule.mark_as_due(name, interval);
        }""", """            next_schedule.mark_as_due(name, interval);
            break;
        }"""))
add('C03', 'quiet', (SC, """        if (state.schedule.is_due(task.first))
        {
            next = task.second(next);
        }""", """        const auto& [name, f] = task;
        next = state.schedule.is_due(name) ? f(next) : next;"""))
add('C03', 'quiet', (SC, """        at(task_name).is_due = false;        
        at(task_name).num_times_performed += 1;""", """        auto& t = at(task_name);
        ++t.num_times_performed;
        t.is_due = false;"""))
add('C03', 'quiet', (SC, """        if (time - state.schedule.last_performed(name) >= interval)
        {
            next_schedule.mark_as_due(name, interval);
        }""", """        if (time < interval + state.schedule.last_performed(name)) continue;
        next_schedule.mark_as_due(name, interval);"""))
add('C03', 'quiet', (SC, """        try {
            return tasks.at(task_name);
        }
        catch (const std::out_of_range&)
        {
            throw std::out_of_range("no task scheduled with the name " + task_name);
        }
    }

    int""", """        auto it = tasks.find(task_name);
        if (it == tasks.end()) throw std::out_of_range("no task scheduled with the name " + task_name);
        return it->second;
    }

    int"""))
add('C03', 'quiet', (SC, """    for (const auto& task : tasks)
    {
        if""", """    for (std::size_t n = 0; n < tasks.size(); ++n)
    {
        const auto& task = tasks[n];
        if"""))
add('C17', 'fire', (CF, """        if (value.index() != template_items.at(key).index())""", """        if (value.index() > template_items.at(key).index())"""))
add('C17', 'fire', (CF, """        if (num_parsed != value.size())""", """        if (num_parsed == 0)"""))
add('C17', 'fire', (CF, """        if (num_parsed != value.size())""", """        if (num_parsed < value.size() - 1)"""))
add('C17', 'fire', (CF, "arg.substr(eq_index + 1)", "arg.substr(arg.rfind('=') + 1)"))
add('C17', 'fire', (CF, "arg.find('=')", "arg.rfind('=')"))
add('C17', 'fire', (CF, """            if (items.count(key))""", """            if (items.count(key) && items[key] != val)"""))
add('C17', 'fire', (CF, """        return config_t(std::move(template_items), std::move(result));""", """        return config_t(result, result);"""))
add('C17', 'fire', (CF, """            case 1: return std::move(*this).set(key, config_parameter_t(parse<double>(key, value)));""", """            case 1: return std::move(*this).set(key, config_parameter_t(double(parse<int>(key, value))));"""))
add('C17', 'fire', (CF, """        return config_t(*this).update(parameters);""", """        return config_t(template_items, template_items).update(parameters);"""))
add('C17', 'fire', (CF, """            result = std::move(result).set(item.first, item.second);""", """            if (result.template_items.count(item.first)) result = std::move(result).set(item.first, item.second);"""))
add('C17', 'fire', (CF, """        if (! template_items.count(key))
        {
            throw std::invalid_argument("config has no option " + key);
        }
        if (value""", """        if (! template_items.count(key)) template_items[key] = value;
        if (value"""))
add('C17', 'quiet', (CF, """        for (auto item : parameters)
        {
            result = std::move(result).set(item.first, item.second);
        }""", """        for (const auto& [key, value] : parameters)
        {
            result = std::move(result).set(key, value);
        }"""))
add('C17', 'quiet', (CF, """        switch (template_items.at(key).index())
        {
            case 0: return std::move(*this).set(key, config_parameter_t(parse<int>(key, value)));
            case 1: return std::move(*this).set(key, config_parameter_t(parse<double>(key, value)));
            case 2: return std::move(*this).set(key, config_parameter_t(value));
        }
        return *this;""", """        const auto& item = template_items.at(key);
        if (std::holds_alternative<int>(item))
            return std::move(*this).set(key, config_parameter_t(parse<int>(key, value)));
        if (std::holds_alternative<double>(item))
            return std::move(*this).set(key, config_parameter_t(parse<double>(key, value)));
        return std::move(*this).set(key, config_parameter_t(value));"""))
add('C17', 'quiet', (CF, """        auto result = std::move(parameters);
        result[key] = value;
        return config_t(std::move(template_items), std::move(result));""", """        parameters[key] = value;
        return std::move(*this);"""))
add('C17', 'quiet', (CF, """        if (eq_index != std::string::npos)
        {""", """        if (eq_index == std::string::npos)
            continue;
        {"""))
add('C17', 'quiet', (CF, """        if (! template_items.count(key))
        {
            throw std::invalid_argument("config has no option " + key);
        }
        return std::get<ValueType>(parameters.at(key));""", """        auto it = parameters.find(key);
        if (template_items.find(key) == template_items.end())
            throw std::invalid_argument("config has no option " + key);
        return std::get<ValueType>(it->second);"""))
add('C17', 'quiet', (CF, """            if (items.count(key))
            {
                throw std::invalid_argument("duplicate parameter " + key);
            }
            items[key] = val;""", """            if (! items.emplace(key, val).second)
            {
                throw std::invalid_argument("duplicate parameter " + key);
            }"""))
# ---- C01 checkpoints
SE, ST, BIO, BB = 'app_serialize.hpp', 'app_serialize_tree.hpp', 'subprog_binary_io.cpp', 'subprog_binary.cpp'
add('C01', 'fire', (SE, 'h5_task.read<int>("num_times_performed")', '(int) h5_task.read<double>("last_performed")'))
add('C02', 'fire', (SE, 'result.count = std::vector<hsize_t>(sel_shape.begin(), sel_shape.end());', 'result.count = std::vector<hsize_t>(sel.start.begin(), sel.start.end());'), note='hyperslab')
add('C01', 'fire', (SE, '"%s.%04d.%s", prefix.data(), count', '"%s.%04d.%s", prefix.data(), count / 2 * 2'))
add('C01', 'fire', (BIO, '    mara::read(location, "work_done_on",                 solution.work_done_on);\n', ''))
add('C01', 'fire', (BIO, 'mara::read(location, "mass_ejected",                 solution.mass_ejected);', 'mara::read(location, "mass_ejected",                 solution.mass_ejected); solution.angular_momentum_ejected = decltype(solution.angular_momentum_ejected)();'))
add('C01', 'fire', (BIO, '    state.time_series = state.time_series.reverse();\n', ''))
add('C01', 'fire', (BIO, 'mara::write(location, "orbital_elements_acc",  solution.orbital_elements_acc);', 'mara::write(location, "orbital_elements_acc",  solution.orbital_elements_grav);'))
add('C01', 'fire', (BIO, '            h5_compound_type_member(native_type, cm_velocity_x),\n', ''), note='member not stored')
add('C02', 'fire', (BIO, 'native_double().as_array(3)', 'native_double().as_array(2)'), all=True)
add('C01', 'fire', (ST, '<< index.coordinates[i];', '<< index.coordinates[Rank - 1 - i];'))
add('C01', 'fire', (ST, "str.erase(0, str.find('-') + 1);", "str.erase(0, str.find('-'));"))
add('C01', 'quiet', (SE, 'task.name = task_name;', 'task.name = h5_task.read<std::string>("name");'))
add('C01', 'quiet', (SE, """        auto h5_task = group.require_group(task.first);
        h5_task.write("name", task.second.name);
        h5_task.write("num_times_performed", task.second.num_times_performed);
        h5_task.write("last_performed", task.second.last_performed);""", """        const auto& [name, t] = task;
        auto h5_task = group.require_group(name);
        h5_task.write("last_performed", t.last_performed);
        h5_task.write("num_times_performed", t.num_times_performed);
        h5_task.write("name", t.name);"""))
add('C01', 'quiet', (BIO, """    mara::write(location, "time_series", state.time_series.reverse());""", """    auto ordered = state.time_series.reverse();
    mara::write(location, "time_series", ordered);"""))
add('C01', 'quiet', (ST, """    for (std::size_t i = 0; i < Rank; ++i)
    {
        result.coordinates[i] = std::stoi(str.substr(0, str.find('-')));
        str.erase(0, str.find('-') + 1);
    }""", """    for (auto& x : result.coordinates)
    {
        auto end = str.find('-');
        x = std::stoi(str.substr(0, end));
        str = end == std::string::npos ? std::string() : str.substr(end + 1);
    }"""))

# ---- C02 layouts
H5 = 'core_hdf5.hpp'
add('C02', 'fire', (BIO, '            h5_compound_type_member(native_type, eccentricity),\n', ''))
add('C02', 'fire', (BIO, 'h5_compound_type_member(native_type, position_of_mass2)', 'std::make_tuple("position_of_mass2", offsetof(native_type, position_of_mass1) + 8, h5::make_datatype_for(native_type().position_of_mass2))'))
add('C02', 'fire', (SE, 'native_int().as_array(2)', 'native_ulong().as_array(1)'))
add('C02', 'fire', (H5, 'selection.skips.data(),\n            selection.count.data()', 'selection.count.data(),\n            selection.skips.data()'))
add('C02', 'fire', (H5, '            count.size() != rank ||\n', ''))
add('C02', 'fire', (SE, 'result.block = std::vector<hsize_t>(sel.rank(), 1);', 'result.block = result.skips;'))
add('C02', 'fire', (SE, 'result.skips = std::vector<hsize_t>(sel.jumps.begin(), sel.jumps.end());', 'result.skips = std::vector<hsize_t>(sel.rank(), 1);'))
add('C02', 'fire', (H5, 'auto maximum = std::vector<hsize_t>(sizeof...(initial_sizes), H5S_UNLIMITED);', 'auto maximum = initial;'))
add('C02', 'fire', (H5, "static Datatype native_ulong()              { return H5Tcopy(H5T_NATIVE_ULONG); }", "static Datatype native_ulong()              { return H5Tcopy(H5T_NATIVE_UINT); }"))
add('C02', 'quiet', (SE, """    auto result = h5::hyperslab_t();
    result.start = std::vector<hsize_t>(sel.start.begin(), sel.start.end());""", """    auto result = h5::hyperslab_t();
    result.start.assign(sel.start.begin(), sel.start.end());"""))
add('C02', 'quiet', (BIO, """            h5_compound_type_member(native_type, separation),
            h5_compound_type_member(native_type, total_mass),""", """            h5_compound_type_member(native_type, total_mass),
            h5_compound_type_member(native_type, separation),"""))
add('C02', 'quiet', (SE, 'native_int().as_array(2)', 'native_int().as_array(sizeof(native_type) / sizeof(int))'))
add('C02', 'fire', (H5, 'dset.get_creation_plist() == creation_plist)', 'dset.get_creation_plist() == PropertyList::dataset_create())'), note='the repaired defect')
add('C02', 'fire', (H5, 'dset.get_space() == space &&', 'dset.get_space().rank() == space.rank() &&'))
# ---- C08 handles, C09 errors
add('C08', 'fire', (H5, "        close();\n        link = std::move(other.link);\n        return *this;\n    }\n    void close() { link.close(Object::dataset); }", "        link = std::move(other.link);\n        return *this;\n    }\n    void close() { link.close(Object::dataset); }"))
add('C08', 'fire', (H5, "            H5Tclose(id);\n            id = -1;", "            H5Tclose(id);"))
add('C08', 'fire', (H5, "    Link(Link&& other)\n    {\n        id = other.id;\n        other.id = -1;", "    Link(Link&& other)\n    {\n        id = other.id;"))
add('C08', 'fire', (H5, "case Object::group  : H5Gclose(id); break;", "case Object::group  : break;"))
add('C08', 'fire', (H5, "case Object::group  : H5Gclose(id); break;", "case Object::group  : H5Dclose(id); break;"))
add('C08', 'fire', (H5, "    ~PropertyList() { close(); }", "    ~PropertyList() {}"))
add('C08', 'fire', (H5, "Datatype(const Datatype& other) : id(H5Tcopy(other.id)) {}", "Datatype(const Datatype& other) : id(other.id) {}"))
add('C08', 'fire', (H5, "        hsize_t dims = size;\n", "        hsize_t dims = size;\n        auto base = detail::check(H5Tcopy(id));\n        detail::check(H5Tset_size(base, H5Tget_size(id)));\n"))
add('C08', 'quiet', (H5, "            H5Tclose(id);\n            id = -1;", "            auto old = id;\n            id = -1;\n            H5Tclose(old);"))
add('C08', 'quiet', (H5, "    Link(Link&& other)\n    {\n        id = other.id;\n        other.id = -1;\n    }", "    Link(Link&& other) : id(other.id) { other.id = -1; }"))
add('C09', 'fire', (H5, "detail::check(H5Dwrite(link.id, type.id, mspace.id, fspace.id, H5P_DEFAULT, data));", "H5Dwrite(link.id, type.id, mspace.id, fspace.id, H5P_DEFAULT, data);"))
add('C09', 'fire', (H5, "detail::check(H5Dset_extent(link.id, &hdims[0]));", "H5Dset_extent(link.id, &hdims[0]);"))
add('C09', 'fire', (H5, "    if (result < 0)\n    {\n        H5E", "    if (result < -1)\n    {\n        H5E"))
add('C09', 'fire', (H5, "        return H5Fis_hdf5", "        return H5Fis_hdf5"), (H5, "detail::check(H5Sget_simple_extent_npoints(id))", "H5Sget_simple_extent_npoints(id)"))
add('C09', 'quiet', (H5, "detail::check(H5Dset_extent(link.id, &hdims[0]));", "if (H5Dset_extent(link.id, hdims.data()) < 0) throw std::runtime_error(\"set_extent\");"))
# ---- C28 lists
LL = 'core_linked_list.hpp'
add('C28', 'fire', (LL, "            if (! next_node.unique())\n                break;\n", ""))
add('C28', 'fire', (LL, "return empty() ? other : linked_list_t(head(), tail().concat(other));", "return empty() ? other : other.empty() ? linked_list_t(head(), other) : linked_list_t(head(), tail().concat(other));"))
add('C28', 'fire', (LL, "return head() == other.head() && tail() == other.tail();", "return head() == other.head() && (tail().empty() || tail() == other.tail());"))
add('C28', 'fire', (LL, "        *this = result.reverse();\n    }\n\n\n\n\n    /**\n     * @brief      Construct a linked list from", "        *this = result;\n    }\n\n\n\n\n    /**\n     * @brief      Construct a linked list from"))
add('C28', 'fire', (LL, "    const linked_list_t& tail() const\n    {\n        if (empty())", "    const linked_list_t& tail() const\n    {\n        if (false)"))
add('C28', 'fire', (LL, "            if (! next_node.unique())\n", "            if (next_node.use_count() > 2)\n"))
add('C28', 'quiet', (LL, "            if (! next_node.unique())\n", "            if (next_node.use_count() > 1)\n"))
add('C28', 'quiet', (LL, "return empty() ? linked_list_t(value, *this) : tail().append(value).prepend(head());", "return reverse().prepend(value).reverse();"))
add('C28', 'quiet', (LL, """        auto result = std::size_t(0);
        auto it = begin();

        while (it != end())
        {
            ++result;
            ++it;
        }
        return result;""", """        return empty() ? 0 : 1 + tail().size();"""))

# ---- C13-C15 one step of the binary solver
BS = 'subprog_binary_scheme.cpp'
add('C13', 'fire', (BS, "        auto fluxl = fhat | nd::drop_final_on_axis(0);\n        return fluxl", "        auto fluxl = fhat | nd::drop_final_on_axis(0);\n        return fhat; return fluxl"))
add('C13', 'fire', (BS, "nodel.at({1, {1, 0}})\n        | nd::concat(nodel.at({1, {1, 1}}))", "nodel.at({1, {0, 0}})\n        | nd::concat(nodel.at({1, {0, 1}}))"))
add('C13', 'fire', (BS, "if (axis == 1 && (x[1] == -rd || x[1] == rd)) flux_lz = 0.0;", "if (axis == 1 && x[1] == rd) flux_lz = 0.0;"))
add('C13', 'fire', (BS, "        | nd::multiply(dx)\n", "        | nd::multiply(dx * 1.0000001)\n"))
add('C14', 'fire', (BS, "auto tauyy = -mu * (dx_ux - dy_uy);", "auto tauyy = -mu * (dx_ux + dy_uy);"))
add('C14', 'fire', (BS, "auto pr_hat = pr - gr * 0.5 * grid_spacing;", "auto pr_hat = pr + gr * 0.5 * grid_spacing;"))
add('C14', 'fire', (BS, "auto gx_ey = extend(gx, 1, 1);", "auto gx_ey = extend(gy, 1, 1);"))
add('C14', 'fire', (BS, "auto th = safe_mode ||", "auto th ="))
add('C14', 'fire', (BS, "(s_grav_1 + s_grav_2 + s_sink_1 + s_sink_2 + s_buffer + s_geom)", "(s_grav_1 + s_grav_1 + s_sink_1 + s_sink_2 + s_buffer + s_geom)"))
add('C15', 'fire', (BS, "totals.angular_momentum_accreted_on[1] = -(s_sink_2    | component<2>()", "totals.angular_momentum_accreted_on[1] = -(s_sink_1    | component<2>()"))
add('C15', 'fire', (BS, "totals.mass_ejected                    = -(s_buffer", "totals.mass_ejected                    = (s_buffer"))
add('C15', 'fire', (BS, "binary.body2.velocity_y + totals.integrated_force_y_on[1].value / binary.body2.mass", "binary.body2.velocity_y + totals.integrated_force_y_on[1].value / binary.body1.mass"))
add('C15', 'fire', (BS, "solution.orbital_elements_grav        + mara::diff(E0, E_grv)", "solution.orbital_elements_grav        + mara::diff(E_grv, E0)"))
for P in ('C13', 'C14', 'C15'):
    add(P, 'quiet', (BS, "auto flux_lz    = x[0] * flux_py - x[1] * flux_px;", "auto flux_lz    = -(x[1] * flux_px) + flux_py * x[0];"), (BS, "auto mu = 0.5 * nu * (pl_hat.sigma() + pr_hat.sigma());", "auto mean_sigma = (pl_hat.sigma() + pr_hat.sigma()) / 2;\n        auto mu = mean_sigma * nu;"))
    add(P, 'quiet', (BS, "    auto dx_ux = 0.5 * (gl.velocity_x() + gr.velocity_x());", "    auto avg = [] (double a, double b) { return (a + b) * 0.5; };\n    auto dx_ux = avg(gl.velocity_x(), gr.velocity_x());"), (BS, "return std::make_pair((u0 - (lx + ly) * dt / dA + s.first) | nd::to_shared(), s.second);", "auto du = (lx + ly) * dt / dA;\n        return std::make_pair((s.first + u0 - du) | nd::to_shared(), s.second);"))

BN = 'subprog_binary.cpp'
add('C16', 'fire', (BN, "auto s2 = advance(s1, solver_data, dt, safe_mode);", "auto s2 = advance(s1, solver_data, dt);"))
add('C16', 'fire', (BN, "return s0 * b0 + s2 * (1 - b0);", "return s1 * b0 + s2 * (1 - b0);"))
add('C16', 'fire', (BN, "return can_fail(solution, solver_data, dt * 0.1, true);", "return can_fail(solution, solver_data, dt * 0.1, false);"))
add('C16', 'fire', (BS, "(conserved_q + other.conserved_q).map(nd::to_shared(), tree_launch)", "(conserved_q + conserved_q).map(nd::to_shared(), tree_launch)"))
add('C16', 'fire', (BS, "integrated_torque_on           * scale.as_double()", "integrated_torque_on"))
add('C16', 'fire', (BN, "        state.time_series,\n        state.run_config,", "        {},\n        state.run_config,"))
add('C16', 'quiet', (BN, "return s0 * b0 + s2 * (1 - b0);", "return s0 * b0 + s2 * b0;"))
add('C16', 'quiet', (BN, "dt * 0.1, true", "dt / 10.0, true"), (BN, "        switch (solver_data.rk_order)\n        {\n            case 1:\n            {\n                return advance(s0, solver_data, dt, safe_mode);\n            }", "        if (solver_data.rk_order == 1)\n            return advance(s0, solver_data, dt, safe_mode);\n        switch (solver_data.rk_order)\n        {"))
add('C14', 'fire', (BS, "if (mara::get<0>(q) < 0.0)", "if (mara::get<0>(q) < -1.0)"))
add('C14', 'fire', (BS, "            if (mara::get<0>(u) < 0.0)\n            {", "            any_failures = false;\n            if (mara::get<0>(u) < 0.0)\n            {"))
BD = 'subprog_binary_diagnostics.cpp'
add('C15', 'fire', (BD, "(solution.conserved_q * dA).map(component<2>())", "(solution.conserved_q * dA).map(component<1>())"))
add('C15', 'fire', (BN, "sample.work_done_on                 = state.solution.work_done_on;", ""))

# ---- C31
SE, CL, PA = 'subprog_sedov.cpp', 'subprog_cloud.cpp', 'app_parallel.hpp'
add('C31', 'fire', (SE, "return p.with_gamma_beta_1(-p.gamma_beta_1());", "return p.with_gamma_beta_1(p.gamma_beta_1());"))
add('C31', 'fire', (SE, "mara::make_area(r * r)", "mara::make_area(r * 2)"))
add('C31', 'fire', (SE, "auto extend_bc = mara::compose(extend_reflecting_inner(), extend_zero_gradient_outer());", "auto extend_bc = mara::compose(extend_zero_gradient_outer(), extend_zero_gradient_outer());"))
add('C31', 'fire', (SE, "| nd::difference_on_axis(0) | nd::read_index(0);", "| nd::difference_on_axis(0) | nd::read_index(1);"))
add('C31', 'fire', (SE, "auto u1 = u0 + (l0 + s0) * dt;", "auto u1 = u0 + (l0 - s0) * dt;"))
add('C31', 'fire', (CL, "auto dm = -cos(q) | nd::difference_on_axis(1);\n    return rc", "auto dm = cos(q) | nd::difference_on_axis(1);\n    return rc"))
add('C31', 'fire', (CL, "return dv * dm * 2 * M_PI / 3.0;", "return dv * dm * 2 * M_PI;"))
add('C31', 'fire', (CL, "return rc * dr * sin(qc) * 2 * M_PI;", "return rc * dr * sin(qc) * 4 * M_PI;"))
add('C31', 'fire', (CL, "auto nh = mara::unit_vector_t::on_axis(axis);", "auto nh = mara::unit_vector_t::on_axis(0);"))
add('C31', 'fire', (CL, "jet.gamma_beta(q, t) + jet.gamma_beta(M_PI - q, t)", "jet.gamma_beta(q, t) + jet.gamma_beta(M_PI - q, 0)"))
add('C31', 'fire', (CL, "        auto c = plm_theta * (ur - u0);", "        auto c = 1.0 * (ur - u0);"))
add('C31', 'fire', (CL, "(P | R) - (G | R) * 0.5);", "(P | R) - (G | L) * 0.5);"))
add('C31', 'fire', (CL, "auto s2 = advance(app_state, s1, dt);", "auto s2 = advance(app_state, s0, dt);"))
add('C31', 'fire', (CL, "(conserved * scale.as_double()).shared(),", "conserved,"))
add('C31', 'fire', (CL, ".with_opening_angle     (cfg.get_double(\"jet_opening_angle\"))", ".with_opening_angle     (cfg.get_double(\"jet_structure_exp\"))"))
add('C31', 'fire', (SE, "auto tfinal = state.run_config.get_double(\"tfinal\");\n    return time < tfinal;", "auto tfinal = state.run_config.get_double(\"tfinal\");\n    return time < tfinal * 0.5;"))
add('C31', 'fire', (CL, "if (time - schedule.last_performed(\"write_diagnostics\") >= dfi) next_schedule.mark_as_due(\"write_diagnostics\", dfi);", "if (time - schedule.last_performed(\"write_diagnostics\") >= dfi) next_schedule.mark_as_due(\"write_diagnostics\", cpi);"))
add('C31', 'quiet', (SE, "auto u1 = u0 + (l0 + s0) * dt;", "auto du = (s0 + l0) * dt;\n    auto u1 = u0 + du;"), (SE, "(std::pow(r1, 3) - std::pow(r0, 3)) / 3", "(r1 * r1 * r1 - r0 * r0 * r0) / 3"))
add('C31', 'quiet', (CL, "        auto b =       0.5 * (ur - ul);", "        auto b =       (ur - ul) / 2;"), (CL, "return dv * dm * 2 * M_PI / 3.0;", "return dv * dm * (2 * M_PI / 3.0);"), (CL, "auto lr = p0 | extend_bc | extrapolate(0) | intercell_flux(0)                       | nd::multiply(-dAr) | nd::difference_on_axis(0);\n        auto lq = p0 |             extrapolate(1) | intercell_flux(1) | nd::extend_zeros(1) | nd::multiply(-dAq) | nd::difference_on_axis(1);\n        auto u1 = u0 + (lr + lq + s0) * dt;\n\n        return solution_t {\n            solution.time + dt.value,\n            solution.iteration + 1,\n            solution.radial_vertices,\n            solution.polar_vertices,\n            u1 | evaluate };\n    }\n    throw", "auto qr = p0 | extend_bc | extrapolate(0) | intercell_flux(0) | nd::multiply(dAr);\n        auto lr = qr | nd::difference_on_axis(0);\n        auto lq = p0 |             extrapolate(1) | intercell_flux(1) | nd::extend_zeros(1) | nd::multiply(-dAq) | nd::difference_on_axis(1);\n        auto u1 = u0 + (lq + s0 - lr) * dt;\n\n        return solution_t {\n            solution.time + dt.value,\n            solution.iteration + 1,\n            solution.radial_vertices,\n            solution.polar_vertices,\n            u1 | evaluate };\n    }\n    throw"))

# ---- C04 thread pool
TP = 'core_thread_pool.hpp'
add('C04', 'fire', (TP, "            {\n                std::lock_guard<std::mutex> lock(mutex); // a worker may be between its check of stop and its wait\n                stop = true;\n            }", "            stop = true;"))
add('C04', 'fire', (TP, "            condition.notify_all();\n\n            for", "            condition.notify_one();\n\n            for"))
add('C04', 'fire', (TP, "        condition.notify_one();\n    }", "    }"))
add('C04', 'fire', (TP, "        std::lock_guard<std::mutex> lock(mutex);\n        auto task = tagged", "        auto task = tagged"))
add('C04', 'fire', (TP, "        std::lock_guard<std::mutex> lock(mutex);\n        pending_tasks.push_back", "        pending_tasks.push_back"))
add('C04', 'fire', (TP, "        std::lock_guard<std::mutex> lock(mutex);\n        pending_tasks.push_back({run, std::make_shared<int>()});\n        condition", "        auto task = task_t{run, std::make_shared<int>()};\n        { std::lock_guard<std::mutex> lock(mutex); }\n        pending_tasks.push_back(task);\n        condition"))
add('C04', 'fire', (TP, "condition.wait(lock, [this] { return stop || ! pending_tasks.empty(); });", "if (! stop && pending_tasks.empty()) condition.wait(lock);"))
add('C04', 'fire', (TP, "return stop || ! pending_tasks.empty(); });", "return stop.load(); });"))
add('C04', 'fire', (TP, "return stop || ! pending_tasks.empty(); });", "return ! pending_tasks.empty(); });"))
add('C04', 'fire', (TP, "        if (pending_tasks.empty())\n        {", "        if (stop || pending_tasks.empty())\n        {"))
add('C04', 'fire', (TP, "auto task = pending_tasks.front();\n        pending_tasks.erase(pending_tasks.begin());", "auto task = pending_tasks.back();\n        pending_tasks.pop_back();"))
add('C04', 'fire', (TP, "auto task = pending_tasks.front();\n        pending_tasks.erase(pending_tasks.begin());\n        running_tasks.push_back(task);", "auto& task = pending_tasks.front();\n        pending_tasks.erase(pending_tasks.begin());\n        running_tasks.push_back(task);"))
add('C04', 'fire', (TP, "        running_tasks.push_back(task);\n", "        running_tasks.push_back(task);\n        lock.unlock();\n        if (running_tasks.size() > 100) running_tasks.reserve(200);\n"))
add('C04', 'fire', (TP, "[fn, promised_result, args...]", "[&fn, promised_result, args...]"))
add('C04', 'fire', (TP, "[fn, promised_result, args...]", "[fn, promised_result, &args...]"))
add('C04', 'fire', (TP, "            catch (...)\n            {\n                promised_result->set_exception(std::current_exception());", "            catch (std::logic_error&)\n            {\n                promised_result->set_exception(std::current_exception());"))
add('C04', 'fire', (TP, "                task.run();\n                complete(task.tag.get());", "                complete(task.tag.get());\n                if (! stop) task.run();"))
add('C04', 'fire', (TP, "        auto task = tagged(tag, running_tasks);\n        running_tasks.erase(task);", "        running_tasks.erase(running_tasks.begin());"))
add('C04', 'fire', (TP, "    ~thread_pool_t()\n    {\n        stop_all();", "    ~thread_pool_t()\n    {\n        if (! running_tasks.empty()) stop_all();"))
add('C04', 'fire', (TP, "        stop_all();\n        threads.clear();", "        threads.clear();"))
add('C04', 'fire', (TP, "        stop_all();\n        threads.clear();", "        stop_all();"))
add('C04', 'fire', (TP, "        std::unique_lock<std::mutex> lock(mutex);\n        condition.wait", "        std::unique_lock<std::mutex> lock(mutex);\n        if (auto n = pending_tasks.size(); n > 1) complete(running_tasks.front().tag.get());\n        condition.wait"))
add('C04', 'fire', (TP, "                stop = true;\n            }\n            condition.notify_all();\n\n            for (auto& thread : threads)\n            {\n                thread.join();\n            }", "                stop = true;\n            condition.notify_all();\n\n            for (auto& thread : threads)\n            {\n                thread.join();\n            } }"))
add('C04', 'quiet', (TP, "std::lock_guard<std::mutex> lock(mutex);\n        pending_tasks.push_back({run, std::make_shared<int>()});\n        condition.notify_one();", "{\n            std::unique_lock<std::mutex> guard(mutex);\n            pending_tasks.push_back({run, std::make_shared<int>()});\n        }\n        condition.notify_all();"))
add('C04', 'quiet', (TP, "condition.wait(lock, [this] { return stop || ! pending_tasks.empty(); });\n", "while (! stop && pending_tasks.empty())\n        {\n            condition.wait(lock);\n        }\n"))
add('C04', 'quiet', (TP, "while (auto task = next(id))\n            {\n                task.run();\n                complete(task.tag.get());\n            }", "for (;;)\n            {\n                auto task = next(id);\n                if (! task) break;\n                task.run();\n                complete(task.tag.get());\n            }"))
add('C04', 'quiet', (TP, "        std::lock_guard<std::mutex> lock(mutex);\n        auto task = tagged(tag, running_tasks);\n        running_tasks.erase(task);", "        std::unique_lock<std::mutex> lock(mutex, std::defer_lock);\n        lock.lock();\n        running_tasks.erase(tagged(tag, running_tasks));\n        lock.unlock();"))
add('C04', 'quiet', (TP, "std::vector<task_t> pending_tasks;", "std::deque<task_t> pending_tasks;"), (TP, "pending_tasks.erase(pending_tasks.begin());", "pending_tasks.pop_front();"), (TP, "#include <vector>", "#include <vector>\n#include <deque>"))
add('C04', 'quiet', (TP, "                stop = true;\n            }\n            condition.notify_all();", "                stop = true;\n                condition.notify_all();\n            }"))

# ---- C05 parallel evaluation
PA = 'app_parallel.hpp'; BS = 'subprog_binary_scheme.cpp'; TR = 'core_tree.hpp'
add('C05', 'fire', (PA, "for (std::size_t n = 0; n < NumThreads; ++n)\n            threads", "for (std::size_t n = NumThreads > 4 ? 1 : 0; n < NumThreads; ++n)\n            threads"))
add('C05', 'fire', (PA, "evaluate_partial(regions[n])", "evaluate_partial(regions[n > 2 ? 0 : n])"))
add('C05', 'fire', (PA, "        for (auto& thread : threads)\n            thread.join();\n", "        for (auto& thread : threads)\n            thread.detach();\n"))
add('C05', 'fire', (PA, "        for (auto& thread : threads)\n            thread.join();\n", "        for (std::size_t n = 0; n < NumThreads - 1; ++n)\n            threads[n].join();\n"))
add('C05', 'fire', (PA, "        auto evaluate_partial = [&]", "        auto slot = 0;\n        auto evaluate_partial = [&]"), (PA, "            return [accessor, array, &provider]\n            {", "            return [accessor, array, &provider, &slot]\n            {\n                slot += 1;"))
add('C05', 'fire', (PA, "return [accessor, array, &provider]", "return [&accessor, array, &provider]"))
add('C05', 'fire', (PA, "block.final[axis] = block.start[axis] + block_sizes[axis][index[axis]];", "block.final[axis] = block.start[axis] + block_sizes[axis][0];"))
add('C05', 'fire', (PA, "            if (index_group.size() == 0)", "            if (index_group.size() == 0 && axis > 0)"))
add('C05', 'fire', (PA, "return {d, num / d};", "return {d, num / d + num % 2};"))
add('C05', 'fire', (PA, "        prime_factors_impl(result, once.first);\n", ""))
add('C05', 'quiet', (PA, "        if (d * d > num)", "        if (d * d > num || d > 9)"))
add('C05', 'fire', (PA, "g.end(), 1, std::multiplies<>()", "g.end(), 1, std::plus<>()"))

SINK = "        return sink_rate * std::exp(-a2);"
add('C05', 'fire', (BS, SINK, "        static double last_a2 = -1.0, last_exp = 0.0;\n        if (last_a2 != a2) { last_a2 = a2; last_exp = std::exp(-a2); }\n        return sink_rate * last_exp;"))
add('C05', 'fire', (BS, "static auto nu_at_position(", "static std::vector<double> nu_scratch(2);\nstatic auto nu_at_position("), (BS, "    if (solver_data.nu > 0.0)\n    {\n        return profile(x) * solver_data.nu;", "    nu_scratch[0] = profile(x);\n    if (solver_data.nu > 0.0)\n    {\n        return nu_scratch[0] * solver_data.nu;"))
add('C05', 'fire', (BS, "    auto recover_primitive_u = [] (auto U)\n    {", "    std::size_t recovered = 0;\n    auto recover_primitive_u = [&recovered] (auto U)\n    {\n        recovered += U.size();"))
add('C05', 'fire', (BS, "    auto recover_primitive_u = [] (auto U)\n    {", "    auto sizes = std::make_shared<std::vector<std::size_t>>();\n    auto recover_primitive_u = [sizes] (auto U)\n    {\n        sizes->push_back(U.size());"))
add('C05', 'fire', (BS, "static auto nu_at_position(", "static int evaluations;\nstatic int& count_evaluation() { return evaluations; }\nstatic auto nu_at_position("), (BS, "    if (solver_data.nu > 0.0)\n    {", "    count_evaluation() += 1;\n    if (solver_data.nu > 0.0)\n    {"))
add('C05', 'fire', ('physics_iso2d.hpp', "mara::iso2d::flux_t mara::iso2d::riemann_hlle(", "static inline double riemann_peak = 0.0;\nmara::iso2d::flux_t mara::iso2d::riemann_hlle("), ('physics_iso2d.hpp', "    auto vm", "    riemann_peak = std::max(riemann_peak, cs2_l);\n    auto vm")) if False else None
add('C05', 'quiet', (BS, SINK, "        thread_local double last_a2 = -1.0, last_exp = 0.0;\n        if (last_a2 != a2) { last_a2 = a2; last_exp = std::exp(-a2); }\n        return sink_rate * last_exp;"))
add('C05', 'quiet', (BS, SINK, "        static const double half = 0.5;\n        double last[2] = {0.0, half};\n        last[0] = std::exp(-a2);\n        return sink_rate * last[0];"))
add('C05', 'quiet', (BS, "#include", "#include <atomic>\n#include"), (BS, "static auto nu_at_position(", "static std::atomic<int> evaluations;\nstatic auto nu_at_position("), (BS, "    if (solver_data.nu > 0.0)\n    {", "    ++evaluations;\n    if (solver_data.nu > 0.0)\n    {"))
add('C05', 'quiet', (PA, "        for (auto& thread : threads)\n            thread.join();\n", "        for (std::size_t n = NumThreads; n > 0; --n)\n            threads[n - 1].join();\n"))
add('C05', 'quiet', (PA, "auto threads = nd::basic_sequence_t<std::thread, NumThreads>();", "auto threads = std::vector<std::thread>();"), (PA, "threads[n] = std::thread(evaluate_partial(regions[n]));", "threads.emplace_back(evaluate_partial(regions[n]));"))
add('C05', 'quiet', (PA, "    for (int d = 2; ; ++d)\n    {\n        if (num % d == 0)\n        {\n            return {d, num / d};\n        }\n        if (d * d > num)\n        {\n            break;\n        }\n    }\n    return {num, 1};", "    int d = 2;\n    while (num % d != 0)\n    {\n        if (d * d > num)\n        {\n            return {num, 1};\n        }\n        d += 1;\n    }\n    return std::make_pair(d, num / d);"))
add('C05', 'quiet', (PA, "            block.start[axis] = block_start_indexes[axis][index[axis]];\n            block.final[axis] = block.start[axis] + block_sizes[axis][index[axis]];", "            const auto i = index[axis];\n            const auto first = block_start_indexes[axis][i];\n            block.start[axis] = first;\n            block.final[axis] = first + block_sizes[axis].at(i);"))
add('C05', 'quiet', (TR, "            return std::make_shared<future_type>(thread_pool.enqueue(fn, std::forward<decltype(v)>(v)));", "            auto future = thread_pool.enqueue(fn, std::forward<decltype(v)>(v));\n            return std::make_shared<future_type>(std::move(future));"))

# ---- C32 lifetime
CF = 'app_config.hpp'; OPS = 'core_ndarray_ops.hpp'
add('C32', 'fire', (OPS, "    return [count, axis] (auto array)", "    return [&count, axis] (auto array)"))
add('C32', 'fire', (OPS, "    return [rhs=arg] (auto lhs) { return lhs * rhs; };", "    return [&] (auto lhs) { return lhs * arg; };"))
add('C32', 'fire', (BS, "    return nd::apply([plm_theta] (auto a", "    return nd::apply([&plm_theta] (auto a")) if False else None
add('C32', 'fire', (BS, "    | nd::apply([plm_theta] (auto a, auto b, auto c) {", "    | nd::apply([&] (auto a, auto b, auto c) {"))
add('C32', 'fire', (BS, "    return [axis, binary, solver_data, grid_spacing] (binary", "    return [axis, binary, &solver_data, grid_spacing] (binary"))
add('C32', 'fire', (BS, "    auto radius = [] (auto x) { return std::sqrt((x * x).sum().value); };", "    auto radius = [] (auto x) { return std::sqrt((x * x).sum().value); };\n    const auto& masses = std::vector<double>{1.0, 2.0}.front();\n    if (masses < 0) return 0.0;"))
add('C32', 'fire', (CF, "        auto result = std::move(parameters);\n        result[key] = value;\n        return config_t(std::move(template_items), std::move(result));", "        auto result = std::move(parameters);\n        result[key] = value;\n        auto items = std::move(template_items);\n        return config_t(config_parameter_map_t(template_items), std::move(result));"))
add('C32', 'fire', (CF, "            result = std::move(result).set(item.first, item.second);", "            auto next = std::move(result).set(item.first, item.second);\n            if (result.find(item.first) != result.end()) result = next;")) if False else None
add('C32', 'fire', (CF, "        auto result = std::move(*this);\n", "        auto result = std::move(*this);\n        if (this->parameters.empty() && template_items.empty()) return result;\n"))
add('C32', 'fire', ('subprog_cloud.cpp', "            return [axis, plm_theta] (auto P)", "            return [axis, &plm_theta=plm_theta] (auto P)"), ('subprog_cloud.cpp', "extrapolate = [plm_theta=app_state.run_config.get_double(\"plm_theta\")] (std::size_t axis)", "extrapolate = [theta=app_state.run_config.get_double(\"plm_theta\")] (std::size_t axis)"), ('subprog_cloud.cpp', "            return [axis, &plm_theta=plm_theta] (auto P)", "            auto plm_theta = theta;\n            return [&] (auto P)"))
add('C32', 'fire', ('core_ndarray.hpp', "std::move(provider).shared()", "std::move(provider).shared()")) if False else None
add('C32', 'quiet', (OPS, "    return [rhs=arg] (auto lhs) { return lhs * rhs; };", "    auto rhs = arg;\n    return [rhs] (auto lhs) { auto times = [&] (auto l) { return l * rhs; }; return times(lhs); };"))
add('C32', 'quiet', (TR, "        return map([fn] (auto&& t) { return std::apply(fn, t); });", "        return map([&fn] (auto&& t) { return std::apply(fn, t); });"))
add('C32', 'quiet', (CF, "        auto result = std::move(*this);\n\n        for", "        config_t result(std::move(*this));\n\n        for"))

# ---- C29 two-body
TB2 = 'model_two_body.hpp'
def c29(kind, *e): add('C29', kind, *[(TB2, a, b) for a, b in e])
c29('fire', ("result.body1.position_x = -a * mu * (e - std::cos(E));", "result.body1.position_x = -a * mu * (e * std::cos(E) - std::cos(E));"))
c29('fire', ("result.body2.position_y = -result.body1.position_y / q;", "result.body2.position_y = -result.body1.position_y * q;"))
c29('fire', ("/ (1 - e * std::cos(E)) * std::cos(E) * std::sqrt(1 - e * e);", "/ (1 - e * std::cos(E)) * std::cos(E);"))
c29('fire', ("return E - e * std::sin(E) - M;", "return E - e * std::sin(E) + M;"))
c29('fire', ("return 1 - e * std::cos(E); }", "return 1 + e * std::cos(E); }"))
c29('fire', ("double mu = q / (1.0 + q);", "double mu = 1.0 / (1.0 + q);"))
c29('fire', ("auto s = std::sin(-params.pomega);", "auto s = std::sin(params.pomega);"))
c29('fire', ("auto vy2_rot = -vx2 * s + vy2 * c;", "auto vy2_rot = -vx2 * s + vy1 * c;"))
c29('fire', ("auto vy1_rot_trans = vy1_rot + params.cm_velocity_y;", "auto vy1_rot_trans = vy1_rot + params.cm_position_y;"))
c29('fire', ("compute_two_body_state(params.elements, t - params.tau);", "compute_two_body_state(params.elements, t + params.tau);"))
c29('fire', ("        t += orbital_period(params.elements);", "        t += 0.5 * orbital_period(params.elements);"))
c29('fire', ("double tau = t - MM / omega;", "double tau = t - EE / omega;"))
c29('fire', ("double ay = +(cn - e) * y1 - sn", "double ay = +(cn - e) * y1 + sn"))
c29('fire', ("double b1 = b * q / (1.0 + q);", "double b1 = b / (1.0 + q);"))
c29('fire', ("double x_cm  = (c1.position_x * c1.mass + c2.position_x * c2.mass) / M;", "double x_cm  = (c1.position_x + c2.position_x) / 2;"))
c29('fire', ("if (E >= 0.0)\n        throw", "if (E > 0.0)\n        throw"))
c29('fire', ("if (E >= 0.0)\n        throw", "if (e >= 1.0)\n        throw"))
c29('fire', ("double q = M2 / M1;", "double q = M2 < M1 ? M2 / M1 : M1 / M2;"))
c29('fire', ("        if (std::abs(b) < std::abs(c))\n            return b;\n        return c;", "        if (delta < 0)\n            return b;\n        return c;")) if False else None
c29('fire', ("        if (std::abs(b) < std::abs(c))", "        if (std::abs(b) > std::abs(c))"))
c29('fire', ("wrap(b.tau    - a.tau, orbital_period(b.elements))", "wrap(b.tau    - a.tau, 2 * M_PI)"))
c29('fire', ("return (T2 * dM1 / M1 + T1 * dM2 / M2) / E", "return (T1 * dM1 / M1 + T2 * dM2 / M2) / E"))
c29('fire', ("        elements.mass_ratio   + other.elements.mass_ratio,", "        elements.mass_ratio   + other.elements.total_mass,"), ) if False else None
c29('fire', ("            elements.mass_ratio   + other.elements.mass_ratio,", "            elements.mass_ratio,"))
c29('fire', ("    while (std::abs(y) > tolerance)", "    while (y > tolerance)"))
c29('fire', ("        x -= y / g(x);\n        y = f(x);", "        y = f(x);\n        x -= y / g(x);"))
c29('fire', ("    result.cm_position_x = a.cm_velocity_x * dt;", "    result.cm_position_x = a.cm_position_x + a.cm_velocity_x * dt;"))
c29('fire', ("    double L2 = -2.0 * orbital_energy(elements) * b2 * mu;", "    double L2 = -2.0 * orbital_energy(elements) * a * a * mu;"))
c29('quiet', ("    while (t < params.tau)\n    {\n        t += orbital_period(params.elements);\n    }\n    auto local = compute_two_body_state(params.elements, t - params.tau);", "    auto P = orbital_period(params.elements);\n    auto since = t - params.tau;\n    if (since < 0.0)\n        since += P * std::ceil(-since / P);\n    auto local = compute_two_body_state(params.elements, since);"))
c29('quiet', ("    auto c = std::cos(-params.pomega);\n    auto s = std::sin(-params.pomega);", "    auto c = std::cos(params.pomega);\n    auto s = -std::sin(params.pomega);"))
c29('quiet', ("        result.body1.position_x = -a * mu * (e - std::cos(E));", "        auto r1 = a * mu;\n        result.body1.position_x = r1 * std::cos(E) - r1 * e;"))
c29('quiet', ("    double y = f(x);\n\n    while (std::abs(y) > tolerance)\n    {\n        x -= y / g(x);\n        y = f(x);\n    }\n    return x;", "    while (true)\n    {\n        double y = f(x);\n        if (std::abs(y) <= tolerance)\n            return x;\n        x -= y / g(x);\n    }"))
c29('quiet', ("    double r1 = std::sqrt(x1 * x1 + y1 * y1);", "    double r1 = std::hypot(x1, y1);")) if False else None
c29('quiet', ("        if (std::abs(a) < std::min(std::abs(b), std::abs(c)))\n            return a;\n        if (std::abs(b) < std::abs(c))\n            return b;\n        return c;", "        auto best = a;\n        if (std::abs(b) < std::abs(best)) best = b;\n        if (std::abs(c) < std::abs(best)) best = c;\n        return best;"))
c29('quiet', ("    return std::min(std::max(x, x0), x1);", "    return x < x0 ? x0 : x > x1 ? x1 : x;"))
c29('quiet', ("    double E = E1 + E2 - M1 * M2 / R;", "    double mu = M1 * M2 / M;\n    double vx = vx1 - vx2, vy = vy1 - vy2;\n    double E = 0.5 * mu * (vx * vx + vy * vy) - M1 * M2 / R;"), ("    double E1 = 0.5 * M1 * (vx1 * vx1 + vy1 * vy1);\n    double E2 = 0.5 * M2 * (vx2 * vx2 + vy2 * vy2);\n", ""))
add('C32', 'fire', ('core_ndarray.hpp', "auto mapping = [array_of_indexes, array_to_index] (auto&& index)", "auto mapping = [&array_of_indexes=array_of_indexes, array_to_index] (auto&& index)"))
add('C32', 'fire', ('core_ndarray.hpp', "auto mapping = [array_of_indexes, array_to_index] (auto&& index)", "auto mapping = [&array_of_indexes, array_to_index] (auto&& index)"))
add('C32', 'quiet', ('core_ndarray.hpp', "auto mapping = [array_of_indexes, array_to_index] (auto&& index)", "auto& source = array_of_indexes;\n        auto mapping = [array_of_indexes=source, array_to_index] (auto&& index)"))

# ---- models
AT, JN = 'model_atmosphere.hpp', 'model_jet_nozzle.hpp'
add('C35', 'fire', (AT, 'return r <= rc ? f0 * std::pow(r / r0, -n1) : density_at(rc) * std::pow(r / rc, -n2);', 'return r <= rc ? f0 * std::pow(r / r0, -n1) : density_at(rc) * std::pow(r / r0, -n2);'))
add('C35', 'fire', (AT, 'return r <= rc ?', 'return r <= r0 ?'))
add('C35', 'fire', (AT, '* std::log(rc / r0))\n        : 4 * M_PI * (density_at(rc) * std::pow(rc, 3) - density_at(r0) * std::pow(r0, 3)) / (3 - n1);\n    }\n\n    double mass_beyond', '* std::log(r0 / rc))\n        : 4 * M_PI * (density_at(rc) * std::pow(rc, 3) - density_at(r0) * std::pow(r0, 3)) / (3 - n1);\n    }\n\n    double mass_beyond'))
add('C35', 'fire', (AT, '/ (n2 - 3);', '/ (3 - n2);'))
add('C35', 'fire', (AT, 'if (n2 <= 3.0)', 'if (n2 < 2.0)'))
add('C35', 'fire', (AT, 'return {f0, r0, rc, n1, new_n2};', 'return {f0, r0, rc, n2, new_n2};'))
add('C35', 'fire', (AT, 'return -psi / m * gamma_beta(m);', 'return -psi / m1 * gamma_beta(m);'))
add('C35', 'fire', (AT, 'double gamma_squared = 1.0 + std::pow(gamma_beta(m), 2);', 'double gamma_squared = 1.0 + gamma_beta(m);'))
add('C35', 'fire', (AT, 'if (r > r1)\n            return gamma_beta(mass_coordinate(r1, t));', 'if (r > r1)\n            return gamma_beta(mass_coordinate(r, t));'))
add('C35', 'fire', (AT, 'std::pow(r / r1, -2.0)', 'std::pow(r / r1, -cloud_index)'))
add('C35', 'fire', (AT, 'auto f = [this, r, t] (double m) { return std::log10(r) - std::log10(radius(m, t)); };', 'auto f = [this, r, t] (double m) { return std::log10(r) - std::log10(radius(m, 1.0)); };'))
add('C35', 'fire', (AT, 'return velocity(envelop_mass);', 'return velocity(m1);'))
add('C35', 'fire', (AT, 'return beta / std::sqrt(1.0 - beta * beta);', 'return beta * std::sqrt(1.0 - beta * beta);'))
add('C35', 'fire', (AT, 'return cloud_mass(t) + envelop_mass;', 'return cloud_mass(t) + m1;'))
add('C35', 'fire', (JN, 'std::exp(-0.5 * std::pow(q / qj, as)) *', 'std::exp(-1.0 * std::pow(q / qj, as)) *'))
add('C35', 'fire', (JN, 'std::pow(G0 * r0 * qj, 2)', 'std::pow(G0 * r0, 2) * qj'))
add('C35', 'fire', (JN, 'return {Ej, G0, new_tj, qj, as, r0};', 'return {Ej, G0, new_tj, qj, as, new_tj};'))
add('C35', 'quiet', (AT, 'return r <= rc ? f0 * std::pow(r / r0, -n1) : density_at(rc) * std::pow(r / rc, -n2);', 'if (r > rc) return f0 * std::pow(rc / r0, -n1) * std::pow(r / rc, -n2);\n        return f0 * std::pow(r / r0, -n1);'))
add('C35', 'quiet', (AT, 'return r <= rc ? f0 * std::pow(r / r0, -n1) : density_at(rc) * std::pow(r / rc, -n2);', 'return r < rc ? f0 * std::pow(r / r0, -n1) : f0 * std::pow(rc / r0, -n1) * std::pow(r / rc, -n2);'), note='the values at the cutoff agree')
add('C35', 'quiet', (AT, 'return u / std::sqrt(1.0 + u * u) * light_speed;', 'auto w = std::sqrt(u * u + 1.0); return light_speed * u / w;'), all=True)
add('C35', 'quiet', (AT, 'return gamma_squared * beta / (4 * M_PI * std::pow(radius(m, t), 3)) / std::abs(dudm(m));', 'auto r = radius(m, t); return gamma_squared * beta / (4 * M_PI * r * r * r * std::abs(dudm(m)));'))
add('C35', 'quiet', (AT, 'double beta = velocity(envelop_mass) / light_speed;\n        return beta / std::sqrt(1.0 - beta * beta);', 'return gamma_beta(envelop_mass);'))
add('C35', 'quiet', (JN, 'std::exp(-std::pow(q / qj, as)) * std::exp(-t / tj);', 'std::exp(-t / tj) * std::exp(-std::pow(q / qj, as));'))
add('C35', 'quiet', (AT, """        if (r < cloud_outer_boundary(t))
            return cloud_gamma_beta();
        if (r > r1)
            return gamma_beta(mass_coordinate(r1, t));
        return gamma_beta(mass_coordinate(r, t));""", """        return r < cloud_outer_boundary(t) ? cloud_gamma_beta() : gamma_beta(mass_coordinate(r > r1 ? r1 : r, t));"""))

# ---- set-up of binary runs
SD = 'subprog_binary_solver_data.cpp'
add('C34', 'fire', (SD, 'run_config.get_double("sink_radius")', 'run_config.get_double("softening_radius")'))
add('C34', 'fire', (SD, 'result.density_floor         = run_config.get_double("density_floor") * run_config.get_double("disk_mass");', 'result.density_floor         = run_config.get_double("density_floor");'))
add('C34', 'fire', (SD, 'std::min(min_dx, min_dy) / max_velocity', 'min_dx / max_velocity'))
add('C34', 'fire', (SD, 'std::tanh(y)', 'std::tanh(-y)'))
add('C34', 'fire', (SD, 'else throw std::invalid_argument("invalid reconstruct_method', 'else if (0) throw std::invalid_argument("invalid reconstruct_method'))
add('C34', 'fire', (SD, 'create_solution(run_config).conserved_q;', 'create_solution(run_config).conserved_u.map([] (auto) { return typename decltype(result.initial_conserved_q)::value_type(); });'), note='no initial angular momenta')
add('C34', 'fire', (SD, '| nd::difference_on_axis(1)\n        | nd::min();', '| nd::difference_on_axis(0)\n        | nd::min();'))
add('C34', 'fire', (BN, 'std::pow(level, focus_index)', 'std::pow(focus_index, level)'))
add('C34', 'fire', (BN, 'return (block * domain_radius).shared();', 'return (block * domain_radius * 0.5).shared();'))
add('C34', 'fire', (BN, '(counter_rotate ? -1 : 1)', '(counter_rotate ? 1 : -1)'))
add('C34', 'fire', (BN, '* (r > 2.0);', '* (r < 2.0);'))
add('C34', 'fire', (BN, 'vp * (-y / r)', 'vp * (y / r)'))
add('C34', 'fire', (BN, 'binary.eccentricity = run_config.get_double("eccentricity");', 'binary.eccentricity = run_config.get_double("mass_ratio");'))
add('C34', 'fire', (BN, 'schedule.create_and_mark_as_due("write_diagnostics");', 'schedule.create("write_diagnostics");') if False else (BN, '    schedule.create_and_mark_as_due("write_diagnostics");\n', ''))
add('C34', 'fire', (BN, '(1 - s1 / sigma(r))', '(1 - s0 / sigma(r))'))
add('C34', 'quiet', (BN, 'auto r2             = x * x + y * y;\n        auto r              = std::sqrt(r2);', 'auto r              = std::sqrt(y * y + x * x);'))
add('C34', 'quiet', (BN, 'auto vx             = vr * (x / r) + vp * (-y / r);', 'auto vx             = (vr * x - vp * y) / r;'))
add('C34', 'quiet', (BN, 'return centroid_radius < focus_factor / std::pow(level, focus_index);', 'auto limit = focus_factor / std::pow(level, focus_index); return limit > centroid_radius;'))
add('C34', 'quiet', (BN, 'auto vr             = -mdot / (sigma(r) * 2 * M_PI * r) * (r > 2.0);', 'auto vr             = r > 2.0 ? -mdot / (2 * M_PI * r * sigma(r)) : 0.0;'))
add('C34', 'quiet', (SD, 'std::min(min_dx, min_dy) / max_velocity * run_config.get_double("cfl_number")', 'std::min(min_dy, min_dx) * run_config.get_double("cfl_number") / max_velocity'))
add('C34', 'quiet', (BN, 'schedule.create_and_mark_as_due("write_checkpoint");\n    schedule.create_and_mark_as_due("write_diagnostics");', 'schedule.create_and_mark_as_due("write_diagnostics");\n    schedule.create_and_mark_as_due("write_checkpoint");'))

# ---- limiter, roots, searches
MI, MP, PS = 'math_interpolation.hpp', 'math_polynomial.hpp', 'post_shock_locator.hpp'
add('C30', 'fire', (MI, 'return 0.25 * abs(sgn(a) + sgn(b))', 'return 0.5 * abs(sgn(a) + sgn(b))'))
add('C30', 'fire', (MI, 'double b = (yr - yl) * 0.5;', 'double b = (yr - yl) * 0.5 * theta;'))
add('C30', 'fire', (MI, 'return min(min(abs(a), abs(b)), abs(c));', 'return min(abs(a), abs(c));'))
add('C30', 'quiet', (MI, 'return 0.25 * abs(sgn(a) + sgn(b)) * (sgn(a) + sgn(c))', 'return 0.25 * abs(sgn(a) + sgn(c)) * (sgn(a) + sgn(b))'), note='same function')
add('C30', 'fire', (MI, 'fn(mara::get<Is>(a), mara::get<Is>(b), mara::get<Is>(c))...', 'fn(mara::get<Is>(a), mara::get<Is>(b), mara::get<Is>(b))...'))
add('C30', 'fire', (MI, 'return plm_gradient(yl[i], y0[i], yr[i], theta);', 'return plm_gradient(yl[0], y0[i], yr[i], theta);'))
add('C30', 'fire', (MI, 'plm_gradient(yl.value, y0.value, yr.value, theta)', 'plm_gradient(yl.value, y0.value, yr.value, 1.0)'))
add('C30', 'quiet', (MI, 'return 0.25 * abs(sgn(a) + sgn(b)) * (sgn(a) + sgn(c)) * minabs(a, b, c);', 'if (a * b <= 0.0 || a * c <= 0.0) return 0.0;\n    return sgn(a) * minabs(a, b, c);'))
add('C30', 'quiet', (MI, 'return 0.25 * abs(sgn(a) + sgn(b)) * (sgn(a) + sgn(c)) * minabs(a, b, c);', 'auto s = sgn(a); return (s + sgn(c)) * abs(s + sgn(b)) * minabs(c, b, a) / 4;'))
add('C30', 'fire', (MP, 'auto q = a1 / 3.0 - a2 * a2 / 9.0;', 'auto q = a1 / 3.0 - a2 * a2 / 3.0;'))
add('C30', 'fire', (MP, 's2 = (s2 >= 0.0) ? std::pow(s2, 1. / 3) : -std::pow(-s2, 1. / 3);', 's2 = std::pow(std::abs(s2), 1. / 3);'))
add('C30', 'fire', (MP, 's1 = (s1 >= 0.0) ? std::pow(s1, 1. / 3) : -std::pow(-s1, 1. / 3);', 's1 = std::pow(s1, 1. / 3);'))
add('C30', 'fire', (MP, 'result.x3 = -sq * costh - a2 / 3.0 + std::sqrt(3) * sq * sinth;', 'result.x3 = -sq * costh - a2 / 3.0 + sq * sinth;'))
add('C30', 'fire', (MP, 'result.x1 = 2.0 * s - a2 / 3.0;', 'result.x1 = 2.0 * s + a2 / 3.0;'))
add('C30', 'fire', (MP, 'auto s = (r >= 0.0) ? std::pow(r, 1. / 3) : -std::pow(-r, 1. / 3);', 'auto s = std::pow(std::abs(r), 1. / 3);'))
add('C30', 'fire', (MP, 'result.num_roots = 1;', 'result.num_roots = 3;'))
add('C30', 'fire', (MP, 'std::acos(r / std::sqrt(-q * q * q)) / 3.0', 'std::acos(r / std::sqrt(-q * q * q))'))
add('C30', 'quiet', (MP, 's1 = (s1 >= 0.0) ? std::pow(s1, 1. / 3) : -std::pow(-s1, 1. / 3);', 's1 = std::cbrt(s1);'))
add('C30', 'quiet', (MP, 'auto r = (a1 * a2 - 3.0 * a0) / 6.0 - a2 * a2 * a2 / 27.0;', 'auto r = a1 * a2 / 6.0 - a0 / 2.0 - std::pow(a2, 3) / 27.0;'))
add('C30', 'fire', (MP, 'auto au0 = 4.0 * a0 * a2 - a1 * a1 - a0 * a3 * a3;', 'auto au0 = 4.0 * a0 * a2 - a1 * a1 - a0 * a3;'))
add('C30', 'fire', (MP, 'std::max(cubic.x1, cubic.x3)', 'std::min(cubic.x1, cubic.x3)'))
add('C30', 'fire', (MP, 'auto f = 0.75 * a3 * a3 - 2.0 * a2;', 'auto f = 0.75 * a3 * a3 - a2;'))
add('C30', 'fire', (MP, 'auto g = 2.00 * std::sqrt(u1 * u1 - 4.0 * a0);', 'auto g = std::sqrt(u1 * u1 - 4.0 * a0);'))
add('C30', 'fire', (MP, 'result.x2 = -0.25 * a3 + 0.5 * R + 0.5 * D;', 'result.x2 = -0.25 * a3 + 0.5 * R - 0.5 * D;'))
add('C30', 'fire', (MP, 'if (E2 >= 0.0)', 'if (D2 >= 0.0)'))
add('C30', 'quiet', (MP, 'auto R = (R2 > 0.0) ? std::sqrt(R2) : 0.0;', 'auto R = std::sqrt(std::max(R2, 0.0));'))
add('C30', 'fire', (MP, 'auto y = C - B * B / (4 * A);', 'auto y = C - B * B / (2 * A);'))
add('C30', 'fire', (MP, 'x3 * x1 * (x3 - x1) * y2', 'x3 * x1 * (x1 - x3) * y2'))
add('C30', 'quiet', (MP, 'auto y = C - B * B / (4 * A);', 'auto y = (A * x + B) * x + C;'))
add('C30', 'fire', (PS, 'while (y(index - 1) > y(index))', 'while (y(index - 1) >= y(index))'))
add('C30', 'fire', (PS, 'dlogp(index - 1) < 0.5 * dlogp(index - 2)', 'dlogp(index - 1) < 0.25 * dlogp(index - 2)'))
add('C30', 'fire', (PS, 'auto y = array | nd::bounds_check();', 'auto y = array;'))
add('C30', 'quiet', (PS, 'while (y(index - 1) > y(index))\n        {\n            --index;\n        }', 'for (; y(index) < y(index - 1); index -= 1) {}'))

FS = 'app_filesystem.hpp'
add('C26', 'fire', (FS, "if (f->d_name[0] != '.')", "if (std::strcmp(f->d_name, \".\") && std::strcmp(f->d_name, \"..\"))"))
add('C26', 'fire', (FS, "        closedir(dir);\n", "        if (! res.empty()) closedir(dir);\n"))
add('C26', 'fire', (FS, 'throw std::invalid_argument("no such directory " + path);', 'return res;'))
add('C26', 'fire', (FS, 'remaining = remaining.substr(slash + 1);', "remaining = remaining.substr(slash + 1);\n        if (remaining.empty()) break;"))
add('C26', 'fire', (FS, "auto slash = remaining.find('/');", "auto slash = remaining.rfind('/');"))
add('C26', 'fire', (FS, 'return res.empty() ? res : res.substr(1);', 'return res;'))
add('C26', 'fire', (FS, 'res += "/" + part;', 'if (! part.empty()) res += "/" + part;'))
add('C26', 'fire', (FS, "path.rfind('.')", "path.find('.')"))
add('C26', 'fire', (FS, 'path.find_last_of("/")', 'path.find_first_of("/")'))
add('C26', 'fire', (FS, 'partial += dir + "/";', 'partial += "/" + dir;'))
add('C26', 'fire', (FS, 'partial += dir + "/";', 'partial += dir;'))
add('C26', 'fire', (FS, 'mkdir(partial.c_str(), S_IRWXU | S_IRWXG | S_IROTH | S_IXOTH);', 'if (mkdir(partial.c_str(), S_IRWXU | S_IRWXG | S_IROTH | S_IXOTH)) break;'))
add('C26', 'fire', (FS, 'mkdir(partial.c_str(), S_IRWXU |', 'mkdir(partial.c_str(), S_IRUSR | S_IWUSR |'))
add('C26', 'fire', (FS, 'if (! lstat(buf', 'if (! stat(buf'))
add('C26', 'quiet', (FS, 'while (! res && (p = readdir(d)))', 'while ((p = readdir(d)))'))
add('C26', 'fire', (FS, '|| ! std::strcmp(p->d_name, ".."))', ')'), note='the parent directory is removed')
add('C26', 'fire', (FS, 'if (! std::strcmp(p->d_name, ".") || ! std::strcmp(p->d_name, ".."))', "if (p->d_name[0] == '.')"), note='hidden files make the removal fail')
add('C26', 'fire', (FS, 'std::strlen(p->d_name) + 2, 0)', 'std::strlen(p->d_name) + 1, 0)'), note='truncated path')
add('C26', 'fire', (FS, '    if (! res)\n    {\n        res = rmdir(path.data());\n    }\n    return res;', '    rmdir(path.data());\n    return 0;'))
add('C26', 'fire', (FS, '        closedir(d);\n', ''))
add('C26', 'fire', (FS, 'return S_ISREG(s.st_mode);', 'return ! S_ISDIR(s.st_mode);'))
add('C26', 'fire', (FS, 'return S_ISDIR(s.st_mode);', 'return s.st_mode & S_IFDIR;'))
add('C26', 'fire', (FS, 'return S_ISREG(s.st_mode);', 'return true;'))
add('C26', 'quiet', (FS, 'return S_ISREG(s.st_mode);', 'return (s.st_mode & S_IFMT) == S_IFREG;'))
add('C26', 'quiet', (FS, 'for (auto part : parts)\n    {\n        res += "/" + part;\n    }\n    return res.empty() ? res : res.substr(1);', 'for (auto& part : parts)\n    {\n        if (&part != &parts.front()) res += "/";\n        res += part;\n    }\n    return res;'))
add('C26', 'quiet', (FS, "    auto dot = path.rfind('.');\n\n    if (dot != std::string::npos)\n    {\n        return path.substr(dot);\n    }\n    return \"\";", "    auto dot = path.find_last_of('.');\n    return dot == std::string::npos ? std::string() : path.substr(dot);"))
add('C26', 'quiet', (FS, '            std::snprintf(&buf[0], buf.size(), "%s/%s", path.data(), p->d_name);', '            buf = path + "/" + p->d_name;'))
add('C26', 'quiet', (FS, 'partial += dir + "/";', 'partial += dir;\n        partial += "/";'))
add('C26', 'quiet', (FS, '                    res2 = remove_recurse(buf.data());', '                    res2 = remove_recurse(buf.c_str());'))

AM = 'app_main.cpp'
add('C27', 'fire', (AM, 'programs["cloud"]       = make_subprog_cloud();', 'programs["cloud"]       = make_subprog_sedov();'))
add('C27', 'fire', (AM, 'programs["partdom"] ', 'programs["partdem"] '))
add('C27', 'fire', (AM, '->main(argc - 1, argv + 1)', '->main(argc, argv)'))
add('C27', 'fire', (AM, '->main(argc - 1, argv + 1)', '->main(argc - 1, argv)'))
add('C27', 'fire', (AM, '->main(argc - 1, argv + 1)', '->main(argc, argv + 1)'))
add('C27', 'fire', (AM, '        return code;\n\n        // try', '        return 0;\n\n        // try'))
add('C27', 'fire', (AM, "'\\n\";\n    return 1;", "'\\n\";\n    return 0;"))
add('C27', 'fire', (AM, 'if (argc == 1)', 'if (argc <= 2)'))
add('C27', 'quiet', (AM, 'if (argc == 1)', 'if (argc < 2)'))
add('C27', 'quiet', (AM, 'else if (programs.count(argv[1]))', 'else if (programs.find(argv[1]) != programs.end())'))
add('C27', 'quiet', (AM, 'auto [code, perf] = mara::time_execution([&] { return programs.at(argv[1])->main(argc - 1, argv + 1); });\n        std::cout << "total', 'auto& program = *programs.at(argv[1]);\n        auto [code, perf] = mara::time_execution([&] { return program.main(argc - 1, argv + 1); });\n        std::cout << "total'))

SE, CL = 'subprog_sedov.cpp', 'subprog_cloud.cpp'
add('C33', 'fire', (SE, 'r < 1.0 ? explosion_pressure : std::pow(r, -density_index) * temperature', 'r < 1.0 ? explosion_pressure : temperature'))
add('C33', 'fire', (SE, '.with_mass_density(r < 1.0 ?', '.with_mass_density(r < 0.9 ?'))
add('C33', 'fire', (SE, 'nd::linspace(-0.5, radial_decades', 'nd::linspace(0.0, radial_decades'))
add('C33', 'fire', (SE, '{"shock_radius_upstream", rc(upstream_index)},', '{"shock_radius_upstream", rc(downstream_index)},'))
add('C33', 'fire', (SE, '{"shock_radius", state.vertices(shock_index)},', '{"shock_radius", rc(shock_index)},'))
add('C33', 'fire', (SE, 'primitive(upstream_index), primitive(downstream_index))},', 'primitive(shock_index), primitive(downstream_index))},'))
add('C33', 'fire', (SE, 'return i == 0 ? rc(i) : mara', 'return mara'))
add('C33', 'fire', (SE, 'vc(i - 1), vc(i), vc(i + 1)).first;', 'vc(i - 1), vc(i), vc(i + 1)).second;'))
add('C33', 'quiet', (SE, '    auto radial_decades = std::log10(outer_radius);\n', '    const double radial_decades = std::log10(outer_radius);\n'), (SE, 'int(radial_decades * nr) + 1)', '1 + int(nr * radial_decades))'))
add('C33', 'quiet', (SE, '''        .with_mass_density(r < 1.0 ? explosion_density  : std::pow(r, -density_index))
        .with_gas_pressure(r < 1.0 ? explosion_pressure : std::pow(r, -density_index) * temperature);''', '''        .with_mass_density(r >= 1.0 ? std::pow(r, -density_index) : explosion_density)
        .with_gas_pressure(r >= 1.0 ? temperature * std::pow(r, -density_index) : explosion_pressure);'''))
add('C33', 'quiet', (SE, '''    return std::map<std::string, double>
    {
        {"time", state.time},
        {"shock_radius", state.vertices(shock_index)},
        {"shock_radius_upstream", rc(upstream_index)},
        {"shock_radius_downstream", rc(downstream_index)},
        {"shock_radius_interpolated", find_vertex(downstream_index)},
        {"shock_velocity", solve_for_shock_velocity(primitive(upstream_index), primitive(downstream_index))},
    };''', '''    auto data = std::map<std::string, double>();
    data["time"] = state.time;
    data["shock_radius"] = state.vertices(shock_index);
    data["shock_radius_upstream"] = rc(upstream_index);
    data["shock_radius_downstream"] = rc(downstream_index);
    data["shock_radius_interpolated"] = find_vertex(downstream_index);
    data["shock_velocity"] = solve_for_shock_velocity(primitive(upstream_index), primitive(downstream_index));
    return data;'''))
add('C33', 'fire', (CL, 'midpoint_index > 16 ? midpoint_index - 16 : 0', 'midpoint_index > 16 ? midpoint_index - 16 : midpoint_index'))
add('C33', 'fire', (CL, 'midpoint_index > 64 ? midpoint_index - 64 : 0', 'midpoint_index > 64 ? midpoint_index - 60 : 0'))
add('C33', 'fire', (CL, 'radial_cells(pressure_index).value * reference.length();', 'radial_cells(pressure_index).value;'))
add('C33', 'fire', (CL, '= primitive(pressure_index, j).lorentz_factor();', '= primitive(pressure_index, 0).lorentz_factor();'))
add('C33', 'fire', (CL, 'dAr(0, j) / state.radial_vertices(0) / state.radial_vertices(0);', 'dAr(1, j) / state.radial_vertices(0) / state.radial_vertices(0);'))
add('C33', 'fire', (CL, 'std::mem_fn(&mara::srhd::primitive_t::gas_pressure)) | nd::multiply(reference.energy_density())', 'std::mem_fn(&mara::srhd::primitive_t::gas_pressure)) | nd::multiply(reference.mass_density())'))
add('C33', 'fire', (CL, 'atmosphere_model.gamma_beta_at(r_cm, jet_delay_time);', 'atmosphere_model.gamma_beta_at(r.value, jet_delay_time);'))
add('C33', 'fire', (CL, '.with_jet_duration      (cfg.get_double("jet_duration"))', '.with_jet_duration      (cfg.get_double("jet_delay_time"))'))
add('C33', 'fire', (CL, '.with_time(atmosphere_model.r0 / light_speed_cgs);', '.with_time(atmosphere_model.rc / light_speed_cgs);'))
add('C33', 'fire', (CL, 'cfg.get_double("cloud_mass") * solar_mass_cgs', 'cfg.get_double("cloud_mass")'))
add('C33', 'fire', (CL, 'nd::linspace(0.0, M_PI, nr + 1)', 'nd::linspace(0.0, M_PI / 2, nr + 1)'))
add('C33', 'quiet', (CL, 'auto i02 = midpoint_index >  2 ? midpoint_index -  2 : 0;', 'auto i02 = midpoint_index < 2 ? 0 : midpoint_index - 2;'))
add('C33', 'quiet', (CL, 'dAr(0, j) / state.radial_vertices(0) / state.radial_vertices(0);', 'dAr(0, j) / (state.radial_vertices(0) * state.radial_vertices(0));'))
add('C33', 'quiet', (CL, "    result.time               = state.time * reference.time();\n", ''), (CL, "    auto result = diagnostic_fields_t();\n", "    auto result = diagnostic_fields_t();\n    result.time = reference.time() * state.time;\n"))
add('C33', 'quiet', (CL, '        auto density     = atmosphere_model.density_at   (r_cm, jet_delay_time) / reference.mass_density();\n', '        auto rho_cgs     = atmosphere_model.density_at   (r_cm, jet_delay_time);\n        auto density     = rho_cgs / reference.mass_density();\n'))
FL = ('''    if (temperature_floor > 0.0)
    {
        p = std::max(p, temperature_floor * D / W0);
    }
''', '''    const auto p_floor = temperature_floor * (D / W0);

    if (temperature_floor > 0.0 && p < p_floor)
    {
        p = p_floor;
    }
''')
add('C21', 'quiet', (SR, FL[0], FL[1]))
add('C21', 'fire', (SR, FL[0], FL[1].replace('p < p_floor', 'p > p_floor')))
NF = '''    if (! solution_found)
    {
        throw std::invalid_argument("mara::srhd::recover_primitive failure: "
            "root finder not converging U=" + mara::to_string(U));
    }
'''
for kind, test in (('quiet', 'iteration == newton_iter_max'), ('quiet', 'iteration >= newton_iter_max'), ('fire', 'iteration > newton_iter_max'), ('fire', 'iteration == newton_iter_max - 1')):
    add('C25', kind, (SR, NF, ''), (SR, '    auto P = primitive_t();\n\n    if (temperature_floor', NF.replace('! solution_found', test) + '    auto P = primitive_t();\n\n    if (temperature_floor'))
add('C14', 'fire', (BS, '        return GM / std::sqrt(r2) / M / M;', '        return GM / std::sqrt(r2) / M;'))
