// Common helpers of the harnesses
#ifndef VP_RK_H
#define VP_RK_H
#include <RadarKit.h>
#include "mcrt.h"
static void rkQuiet(void) {
    RKSetWantScreenOutput(false);
    RKSetWantColor(false);
    RKSetRootDataFolder(".");
    rkGlobalParameters.logfile[0] = '\0';
}
#endif
