// modules: score-util lib bmc
// with: BmcWorld.java P30.java
public class P31 { public static void main(String[] args) { P30.run("P31", args, false, true); } }
