------------------------------ MODULE MCCoupled ------------------------------
EXTENDS Coupled
=============================================================================
