namespace sim { int arena[32]; void fn_a() {} void fn_b() {} }
