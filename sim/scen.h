#pragma once
#include "world.h"
namespace sim {
void stalls(Rng &r);
void partitions(World &w, Rng &r, ns_t horizon, std::vector<uint32_t> ips, double p);
void f_clisrv(World &w); void f_cliraw(World &w); void f_srvraw(World &w);
void p_client(World &w); void p_S01(World &w); void p_S02(World &w); void p_S03(World &w); void p_S04(World &w); void p_S07(World &w);
Bytes block_val(unsigned num, int more, int szx); Bytes garbage(World &w, Rng &r); void block_routes(World &w, Rng &r); void sysfaults(Rng &r, bool startup); void f_blockpeers(World &w);
void p_X01(World &w); void p_X02(World &w); void p_X03(World &w); void p_X04(World &w); void p_S05(World &w); void p_S06(World &w); void p_S08(World &w);
void p_A01(World &w); void p_A02(World &w); void p_A03(World &w);
void p_D01(World &w); void p_D02(World &w); void p_M01(World &w); void p_M02(World &w); void p_B01(World &w); void p_B02(World &w); void p_B03(World &w); void p_B04(World &w); void p_B05(World &w);
}
